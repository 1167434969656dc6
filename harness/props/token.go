package main

import (
	"fmt"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C20: tokens read one by one.

type provider string

func (p provider) SrsCode() string { return string(p) }

var tokenCodes = map[string]int{
	"proc": ast.Procedure, "var": ast.Var, "goto": ast.GoTo, "endproc": ast.EndProcedure, "val": ast.ValueParam, "if": ast.If, "then": ast.Then,
	"elseif": ast.ElseIf, "else": ast.Else, "endif": ast.EndIf, "for": ast.For, "each": ast.Each, "in": ast.In, "to": ast.To, "loop": ast.Loop,
	"endloop": ast.EndLoop, "break": ast.Break, "continue": ast.Continue, "try": ast.Try, "new": ast.New, "catch": ast.Catch, "while": ast.While,
	"endtry": ast.EndTry, "func": ast.Function, "endfunc": ast.EndFunction, "return": ast.Return, "throw": ast.Throw, "and": ast.And, "or": ast.OR,
	"true": ast.True, "false": ast.False, "undef": ast.Undefind, "not": ast.Not, "export": ast.Export, "exec": ast.Execute,
	"num": ast.Number, "str": ast.String, "date": ast.Date, "dir": ast.Directive, "label": ast.GoToLabel,
	"eq": ast.EQUAL, "ne": ast.NeEQ, "le": ast.LE, "ge": ast.GE,
}

func tokenCode(k string) int {
	if k == "id" {
		// the one kind without an exported name
		c, _ := (&ast.Token{}).Next(provider("а"))
		return c
	}
	if c, ok := tokenCodes[k]; ok {
		return c
	}
	if len(k) != 1 {
		panic("HARNESS: no code for " + k)
	}
	return int(k[0])
}

func init() {
	reg(&drv.Check{
		ID:    "C20",
		Rule:  "token soups, rendered modules and edited texts in random layouts, read through Token.Next from a source provider of our own: kinds and positions against the independent scanner up to the end or the first lexical fault (which must be an error), then end of text five times; non-trivial: at least 5 tokens",
		Quick: 600000, Thorough: 13200000,
		Fixed: both(big("good", 99, ""), big("bad", 99, ""), big("glued", 99, ""), counted("")),
		Gen: func(g *drv.G) *drv.Case {
			kind := []string{"module", "soup", "mutated", "odd"}[g.W(3, 4, 2, 2)]
			var src string
			switch kind {
			case "module":
				src, _ = genSource(g, func(x *lang.Gen) { x.Stmts, x.Exprs = g.R(1, 6), g.R(2, 40) })
			case "soup":
				var ts []lang.Tok
				for i := g.R(1, 30); i > 0; i-- {
					t := lang.RandTok(g)
					if t.Kind == "id" {
						t.Text = lang.NewGen(g).Name()
					}
					ts = append(ts, t)
				}
				src, _ = lang.Layout(ts, g, g.N(4))
			case "mutated":
				src = mutated(g, nil)
			default:
				src = string(genText(g).Src)
				if len(src) > 4000 {
					return nil
				}
			}
			return &drv.Case{Kind: kind, Src: drv.Txt(src)}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			toks, le := lang.Lex(src)
			var t ast.Token
			p := provider(src)
			// line and column of offset at, advanced with the tokens
			at, l0, c0 := 0, 1, 0
			lineCol := func(o int) (int, int) {
				if o < at {
					at, l0, c0 = 0, 1, 0
				}
				for _, r := range src[at:o] {
					if c0++; r == '\n' {
						l0, c0 = l0+1, 0
					}
				}
				at = o
				return l0, c0
			}
			for i, w := range toks {
				k, err := t.Next(p)
				if err != nil {
					return fmt.Errorf("token %d (%s %q) cannot be read: %v", i, w.Kind, w.Text, err)
				}
				if want := tokenCode(w.Kind); k != want {
					return fmt.Errorf("token %d, %q, is read as kind %d, it is %s (%d)", i, w.Text, k, w.Kind, want)
				}
				x.Class("token " + w.Kind)
				// each asking reads the text from its start
				if i > 1000 && i < len(toks)-100 && i%(len(toks)/100+1) != 0 {
					continue
				}
				pos := t.GetPosition()
				l, col := lineCol(w.End)
				ok := pos.Line == l && pos.Column == col+1
				if w.Kind == "str" || w.Kind == "date" {
					for _, r := range src[w.End:w.Next] {
						if col++; r == '\n' {
							l, col = l+1, 0
						}
						ok = ok || pos.Line == l && pos.Column == col+1
					}
				}
				if !ok {
					l, col := lineCol(w.End)
					return fmt.Errorf("behind token %d, %q, the position is %d:%d, it is %d:%d", i, w.Text, pos.Line, pos.Column, l, col+1)
				}
			}
			if le != nil && (le.Msg == "line break in date" || le.Msg == lang.UnclearRegion) {
				x.Class("date continued on the next line: not claimed")
			} else if le != nil {
				if k, err := t.Next(p); err == nil {
					return fmt.Errorf("behind %d tokens stands a lexical fault (%v), and it is read as kind %d", len(toks), le, k)
				}
				x.Class("lexical fault")
			} else {
				for i := 0; i < 5; i++ {
					if k, err := t.Next(p); k != ast.EOF || err != nil {
						return fmt.Errorf("reading behind the end gives %d, %v in place of the end of text", k, err)
					}
				}
			}
			if len(toks) >= 5 {
				x.NonTrivial(src)
			}
			return nil
		},
	})
}
