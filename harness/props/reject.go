package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/harness/drv"
	"verif/harness/lang"
)

// mutated makes a token sequence that is close to a module, and lays it out.
func mutated(g *drv.G, tune func(*lang.Gen)) string {
	x := lang.NewGen(g)
	x.Stmts = g.R(1, 8)
	x.Exprs = g.R(2, 30)
	x.Simple = g.P(2, 3)
	if tune != nil {
		tune(x)
	}
	toks := lang.ModuleToks(x.Module(), g)
	for i := 1 + g.Geo(1, 4, 3); i > 0; i-- {
		toks = lang.Mutate(g, toks)
	}
	src, _ := lang.Layout(toks, g, g.W(3, 2, 4, 1))
	return src
}

func insertAt(s string, i int, x string) string { return s[:i] + x + s[i:] }

func init() {
	reg(&drv.Check{
		ID:    "C09",
		Rule:  "random modules dense with break, continue, raise, return and labels: legal ones must be accepted; the same with one context violation injected at a random place must be rejected; legality is decided by an independent validator; non-trivial: an illegal module, or a legal one with at least 2 context-dependent statements",
		Quick: 500000, Thorough: 11000000,
		Fixed: both(big("good", 99, "legal"), big("break", 99, "break"), big("value", 9, "value"), counted("legal"), countedBad("break", "Прервать;", "Если а Тогда Продолжить; КонецЕсли;", "а = 1; ВызватьИсключение;")),
		Gen: func(g *drv.G) *drv.Case {
			x := lang.NewGen(g)
			x.Exprs = g.R(2, 20)
			x.Ctx = 3
			x.Simple = g.P(2, 3)
			m := x.Module()
			if g.P(2, 5) {
				return &drv.Case{Kind: "legal", Src: drv.Txt(layout(g, m))}
			}
			return violate(g, x, m)
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			m, rerr := lang.Read(src)
			var bad []lang.Violation
			if rerr == nil {
				bad = lang.Context(m)
			}
			x.Class(c.Kind)
			if c.Kind == "legal" {
				if rerr != nil || len(bad) > 0 {
					return broken("legal module: %v %v", rerr, bad)
				}
				if _, err := parse(src); err != nil {
					return fmt.Errorf("a legal module is rejected: %v", err)
				}
				n := count(m)
				k := n.kinds
				if k["stmt break"]+k["stmt continue"]+k["stmt return"]+k["stmt throw"]+k["stmt label"] >= 2 {
					x.NonTrivial(src)
				}
				return nil
			}
			if rerr == nil && len(bad) == 0 {
				return broken("the illegal module (%s) is legal", c.Kind)
			}
			x.NonTrivial(src)
			if _, err := parse(src); err == nil {
				return fmt.Errorf("accepted although: %s %v %v", c.Kind, bad, rerr)
			}
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C21",
		Rule:  "random modules with context rules broken at one place or a few (decided by the independent validator); for one of them the error must hold the operator as written or the variable's name, and its line, column and literal must be those of a token of the offending statement or declaration or of the token behind it; non-trivial: at least three tokens stand before the place",
		Quick: 400000, Thorough: 8800000,
		Fixed: both(big("break", 99, ""), big("value", 99, ""), countedBad("", "Прервать;", "Если а Тогда Продолжить; КонецЕсли;", "а = 1; ВызватьИсключение;")),
		Gen: func(g *drv.G) *drv.Case {
			x := lang.NewGen(g)
			x.Exprs = g.R(2, 20)
			x.Ctx = 3
			m := x.Module()
			c := violate(g, x, m)
			for i := g.W(6, 2, 1); i > 0 && c != nil; i-- {
				c = violate(g, x, m)
			}
			return c
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			toks, le := lang.Lex(src)
			if le != nil {
				return broken("%v", le)
			}
			m, err := lang.ReadToks(toks)
			if err != nil {
				return nil // decided by the grammar
			}
			bad := lang.Context(m)
			if len(bad) == 0 {
				x.Class("nothing broken")
				return nil
			}
			_, err = parse(src)
			if err == nil {
				return fmt.Errorf("accepted although: %v", bad)
			}
			var why error
			for _, v := range bad {
				if why = namesViolation(src, toks, v, err.Error()); why == nil {
					x.Class(v.Rule)
					break
				}
			}
			if why != nil {
				return fmt.Errorf("%d rules are broken, and the error names none of them: %v", len(bad), why)
			}
			x.Class(fmt.Sprintf("%d broken", min(len(bad), 4)))
			if bad[0].From >= 3 {
				x.NonTrivial(src)
			}
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C10",
		Rule:  "token sequences made from well-formed modules by deleting, inserting, duplicating, swapping, replacing, moving or cutting tokens, kept when an Earley recogniser of the grammar does not derive them; each must be rejected; non-trivial: at least 6 tokens",
		Quick: 400000, Thorough: 8800000,
		Fixed: both(big("bad", 99, ""), countedBad("", "а = ;", "а = 1 КонецПроцедуры", ")", "Если а Тогда б(); Иначе", "а(1; 2);")),
		Gen: func(g *drv.G) *drv.Case {
			return &drv.Case{Src: drv.Txt(mutated(g, nil))}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			toks, le := lang.Lex(src)
			if le != nil {
				x.Class("lexical fault")
				return nil
			}
			ok, at := lang.Recognise(lang.Kinds(toks))
			if at < 0 {
				x.Class("recogniser gave up")
				return nil
			}
			if ok {
				x.Class("still a module")
				return nil
			}
			if at < len(toks) {
				x.Class("offending token " + toks[at].Kind)
			} else {
				x.Class("ends too early")
			}
			if len(toks) >= 6 {
				x.NonTrivial(src)
			}
			if _, err := parse(src); err == nil {
				where := "the end"
				if at < len(toks) {
					l, col := lang.LineCol(src, toks[at].Off)
					where = fmt.Sprintf("%q at %d:%d", toks[at].Text, l, col)
				}
				return fmt.Errorf("malformed text is accepted; it cannot continue at %s", where)
			}
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C11",
		Rule:  "well-formed modules with one lexical fault (foreign character, unknown directive, unterminated literal, uncontinued string line, bad number, bad date) inserted at a random token boundary; kept when the reference scanner reports a fault; each must be rejected; non-trivial: at least one token stands before the fault",
		Quick: 700000, Thorough: 15400000,
		Gen:   genLexFault,
		Fixed: both(fixedFaults, big("foreign", 99, "big"), big("glued", 9, "big"), countedBad("counted", "а = 1; @", "а = 1б;", "а = \"б", "а = '2024'; б = '1';")),
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			toks, le := lang.Lex(src)
			if le == nil || le.Msg == "line break in date" || le.Msg == lang.UnclearRegion {
				x.Class("no fault: " + c.Kind)
				return nil
			}
			x.Class(le.Msg)
			x.Class("fault: " + c.Kind)
			if len(toks) > 0 {
				x.NonTrivial(src)
			}
			if _, err := parse(src); err == nil {
				l, col := lang.LineCol(src, le.Off)
				return fmt.Errorf("accepted although at %d:%d: %s", l, col, le.Msg)
			}
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C30",
		Rule:  "well-formed modules, and token sequences close to one, with one lexical fault inserted at a random place; the recogniser decides whether the tokens in front of the fault are a whole module, the beginning of one, or already impossible, and with it which error is right; non-trivial: at least three tokens stand before the fault",
		Quick: 400000, Thorough: 8800000,
		Gen: func(g *drv.G) *drv.Case {
			if g.P(1, 4) {
				src := mutated(g, nil)
				toks, le := lang.Lex(src)
				if le != nil || len(toks) == 0 {
					return nil
				}
				t := drv.Pick(g, toks)
				return &drv.Case{Kind: "two faults", Src: drv.Txt(insertAt(src, t.End, drv.Pick(g, []string{" @", " 1.2.3", " $", "\n?@", " '2'", " 5x"})))}
			}
			return genLexFault(g)
		},
		Fixed:       both(fixedFaults, big("foreign", 99, "big"), big("glued", 99, "big"), countedBad("counted", "а = 1; @", "а = 1б;", "а = \"б", "а = '2024'; б = '1';")),
		Assumptions: []string{"texts holding Выполнить in front of the fault are left out, as in C12"},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			toks, le := lang.Lex(src)
			if le == nil || le.Msg == "line break in date" || le.Msg == lang.UnclearRegion {
				x.Class("no fault: " + c.Kind)
				return nil
			}
			x.Class(le.Msg)
			if len(toks) >= 3 {
				x.NonTrivial(src)
			}
			_, err := parse(src)
			if err == nil {
				return fmt.Errorf("accepted although %v", le)
			}
			return faultPlace(src, toks, le, err.Error(), x)
		},
	})
	reg(&drv.Check{
		ID:    "C12",
		Rule:  "mutated token sequences under any layout, first impossible token found by the Earley recogniser, line, column and token compared with the error text; non-trivial: the offending token is not the first one",
		Quick: 400000, Thorough: 8800000,
		Fixed: both(big("bad", 99, ""), countedBad("", "а = ;", "а = 1 КонецПроцедуры", ")", "Если а Тогда б(); Иначе", "а(1; 2);")),
		Gen: func(g *drv.G) *drv.Case {
			return &drv.Case{Src: drv.Txt(mutated(g, nil))}
		},
		Assumptions: []string{"texts holding Выполнить are left out: the parser's own resolution of 'Выполнить а.б' is stricter than the grammar"},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			toks, le := lang.Lex(src)
			if le != nil {
				x.Class("lexical fault")
				return nil
			}
			for _, t := range toks {
				if t.Kind == "exec" {
					x.Class("Выполнить")
					return nil
				}
			}
			ok, at := lang.Recognise(lang.Kinds(toks))
			if at < 0 {
				x.Class("recogniser gave up")
				return nil
			}
			if ok || len(toks) == 0 {
				x.Class("still a module")
				return nil
			}
			if at == len(toks) {
				x.Class("ends too early")
				at--
			} else {
				x.Class("offending token " + toks[at].Kind)
			}
			if at > 0 {
				x.NonTrivial(src)
			}
			t := toks[at]
			lit := t.Text
			switch t.Kind {
			case "str", "date", "label":
				lit = t.Val
			}
			l, col := lang.LineCol(src, t.Off)
			_, err := parse(src)
			if err == nil {
				return fmt.Errorf("malformed text is accepted")
			}
			want := fmt.Sprintf("line: %d, column: %d (unexpected literal: %q)", l, col, lit)
			if !strings.HasSuffix(err.Error(), want) {
				return fmt.Errorf("the error should end with %s\n  got %v", want, err)
			}
			return nil
		},
	})
}

// tokenPlace is the end of an error that names a token.
func tokenPlace(src string, t lang.Tok) string {
	lit := t.Text
	switch t.Kind {
	case "str", "date", "label":
		lit = t.Val
	}
	lit = string([]rune(lit)) // bytes that are not UTF-8 are read as U+FFFD
	l, col := lang.LineCol(src, t.Off)
	return fmt.Sprintf("line: %d, column: %d (unexpected literal: %q)", l, col, lit)
}

// faultPlace decides what the error of a lexically faulty text may say.
func faultPlace(src string, toks []lang.Tok, le *lang.LexError, text string, x *drv.Ctx) error {
	for _, t := range toks {
		if t.Kind == "exec" {
			x.Class("Выполнить")
			return nil
		}
	}
	ok, at := lang.Recognise(lang.Kinds(toks))
	if at < 0 {
		x.Class("recogniser gave up")
		return nil
	}
	if !ok && at < len(toks) {
		x.Class("malformed in front of the fault")
		if want := tokenPlace(src, toks[at]); !strings.HasSuffix(text, want) {
			return fmt.Errorf("%v: the error should end with %s\n  got %s", le, want, text)
		}
		return nil
	}
	if ok {
		if m, err := lang.ReadToks(toks); err != nil || len(lang.Context(m)) > 0 {
			x.Class("a context rule is broken in front of the fault")
			return nil
		}
	}
	if strings.HasPrefix(text, "get token error: ") && len(text) > len("get token error: ") {
		x.Class("told as unreadable")
		if r, size := utf8.DecodeRuneInString(src[le.Off:]); le.Msg == lang.Foreign && (size > 1 || r < utf8.RuneSelf) {
			if name := fmt.Sprintf("%q", string(r)); !strings.Contains(text, name) {
				return fmt.Errorf("%v: the error should name %s\n  got %s", le, name, text)
			}
		}
		return nil
	}
	var places []string
	if !ok && len(toks) > 0 {
		places = append(places, tokenPlace(src, toks[len(toks)-1]))
	}
	for end := le.End; ; {
		next, more := lang.Lex(src[end:])
		if len(next) > 0 {
			t := next[0]
			t.Off += end
			places = append(places, tokenPlace(src, t))
			break
		}
		if more == nil {
			break
		}
		if more.Msg == "line break in date" || more.Msg == lang.UnclearRegion {
			return nil
		}
		end += more.End
	}
	for i, p := range places {
		if strings.HasSuffix(text, p) {
			if ok || i > 0 {
				x.Class("named by what stands behind it")
			} else {
				x.Class("named by what stands in front of it")
			}
			return nil
		}
	}
	return fmt.Errorf("%v: the error should tell of a token that cannot be read or end with one of %q\n  got %s", le, places, text)
}

// namesViolation says whether an error names a violation and its place.
func namesViolation(src string, toks []lang.Tok, v lang.Violation, text string) error {
	name := fmt.Sprintf("%q", v.Name)
	if v.Stmt != nil && v.Stmt.Kind != lang.Return {
		name = fmt.Sprintf("%q", toks[v.From].Text)
	}
	i := strings.LastIndex(text, ". line: ")
	if i < 0 {
		return fmt.Errorf("the error names no place: %s", text)
	}
	if name != `""` && !strings.Contains(text[:i], name) {
		return fmt.Errorf("%v: the error should name %s\n  got %s", v, name, text)
	}
	want := ""
	for j := v.From; j <= v.To && j < len(toks); j++ {
		t := toks[j]
		lit := t.Text
		switch t.Kind {
		case "str", "date", "label":
			lit = t.Val
		}
		l, col := lang.LineCol(src, t.Off)
		p := fmt.Sprintf(". line: %d, column: %d (unexpected literal: %q)", l, col, lit)
		if text[i:] == p {
			return nil
		}
		if want == "" {
			want = p
		}
	}
	return fmt.Errorf("%v: the error should name a place like %s\n  got %s", v, want, text)
}

// violate injects one context violation.
// put inserts a name into a list at a random place, most often the end.
func put(g *drv.G, names []string, n string) []string {
	at := len(names)
	if g.P(1, 3) {
		at = g.N(at + 1)
	}
	return append(names[:at:at], append([]string{n}, names[at:]...)...)
}

func violate(g *drv.G, x *lang.Gen, m *lang.Module) *drv.Case {
	name := &lang.Expr{Kind: lang.Chain, Links: []lang.Link{{Name: "х"}}}
	pick := func(f func(lang.Place) bool) (lang.Place, bool) {
		var ps []lang.Place
		for _, p := range lang.Places(m) {
			if f(p) {
				ps = append(ps, p)
			}
		}
		if len(ps) == 0 {
			return lang.Place{}, false
		}
		// prefer deep places
		a, b := drv.Pick(g, ps), drv.Pick(g, ps)
		if b.Depth > a.Depth {
			a = b
		}
		return a, true
	}
	done := func(kind string) *drv.Case {
		toks := lang.ModuleToks(m, g)
		src, _ := lang.Layout(toks, g, g.W(3, 2, 4, 1))
		return &drv.Case{Kind: kind, Src: drv.Txt(src)}
	}
	lay := func(kind string, toks []lang.Tok) *drv.Case {
		src, _ := lang.Layout(toks, g, g.W(3, 2, 4, 1))
		return &drv.Case{Kind: kind, Src: drv.Txt(src)}
	}
	switch g.W(4, 4, 4, 2, 2, 1, 1, 1, 4) {
	case 0:
		p, ok := pick(func(p lang.Place) bool { return !p.Loop })
		if !ok {
			return nil
		}
		k := lang.Break
		if g.B() {
			k = lang.Continue
		}
		p.Insert(g, &lang.Stmt{Kind: k})
		return done("break outside a loop")
	case 1:
		p, ok := pick(func(p lang.Place) bool { return !p.Catch })
		if !ok {
			return nil
		}
		p.Insert(g, &lang.Stmt{Kind: lang.Throw})
		return done("bare raise outside a handler")
	case 2:
		p, ok := pick(func(p lang.Place) bool { return !p.Fn })
		if !ok {
			return nil
		}
		p.Insert(g, &lang.Stmt{Kind: lang.Return, E: x.Expr(2)})
		return done("value returned outside a function")
	case 3:
		if len(m.Vars) == 0 {
			m.Vars = append(m.Vars, &lang.VarDecl{Names: []string{x.Name()}})
		}
		v := drv.Pick(g, m.Vars)
		n := drv.Pick(g, v.Names)
		w := drv.Pick(g, m.Vars)
		if g.B() {
			w = &lang.VarDecl{Export: g.B()}
			at := g.N(len(m.Vars) + 1)
			m.Vars = append(m.Vars[:at:at], append([]*lang.VarDecl{w}, m.Vars[at:]...)...)
		}
		w.Names = put(g, w.Names, n)
		return done("duplicate module variable")
	case 4:
		if len(m.Routines) == 0 {
			return nil
		}
		r := drv.Pick(g, m.Routines)
		if len(r.Locals) == 0 {
			r.Locals = [][]string{{"л1", "л2"}}
		}
		n := drv.Pick(g, drv.Pick(g, r.Locals))
		if g.B() {
			at := g.N(len(r.Locals) + 1)
			r.Locals = append(r.Locals[:at:at], append([][]string{{n}}, r.Locals[at:]...)...)
		} else {
			i := g.N(len(r.Locals))
			r.Locals[i] = put(g, r.Locals[i], n)
		}
		return done("duplicate local variable")
	case 5:
		if len(m.Routines) == 0 {
			return nil
		}
		var toks []lang.Tok
		for _, v := range m.Vars {
			toks = append(toks, lang.VarToks(v, g)...)
		}
		at := g.N(len(m.Routines))
		for i, r := range m.Routines {
			toks = append(toks, lang.RoutineToks(r, g)...)
			if i == at {
				toks = append(toks, lang.VarToks(&lang.VarDecl{Names: []string{"НоваяПеременная"}, Export: g.B()}, g)...)
			}
		}
		toks = append(toks, lang.BlockToks(m.Body, g)...)
		return lay("variable behind a routine", toks)
	case 6:
		if len(m.Body) == 0 {
			m.Body = []*lang.Stmt{{Kind: lang.Assign, L: name, E: name}}
		}
		toks := lang.ModuleToks(m, g)
		if toks[len(toks)-1].Kind != ";" && g.B() {
			toks = append(toks, lang.Tok{Kind: ";", Text: ";"})
		}
		return lay("routine behind statements", append(toks, lang.RoutineToks(x.Routine(), g)...))
	case 7:
		if len(m.Body) == 0 {
			m.Body = []*lang.Stmt{{Kind: lang.Assign, L: name, E: name}}
		}
		toks := lang.ModuleToks(m, g)
		if toks[len(toks)-1].Kind != ";" {
			toks = append(toks, lang.Tok{Kind: ";", Text: ";"})
		}
		return lay("variable behind statements", append(toks, lang.VarToks(&lang.VarDecl{Names: []string{"НоваяПеременная"}}, g)...))
	default:
		toks := lang.ModuleToks(m, g)
		var at []int
		for i, t := range toks {
			if t.Kind == ";" && i > 0 && toks[i-1].Kind != ":" && toks[i-1].Kind != ";" {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return nil
		}
		toks[drv.Pick(g, at)] = lang.Tok{Kind: ":", Text: ":"}
		return lay("colon behind a statement", toks)
	}
}

var foreign = []string{"@", "!", "$", "^", "\\", "{", "}", "|", "`", "\x00", "\x01", "\x1b", "\x7f", "\u00a0", "\ufeff", "№", "€", "“", "«", "…", "—", "😀", "٣", "²", "\u200b", "\u0301", "\xff", "\xd0", "\xc3(", "\xe2\x82", "\v", "\f", "\u2028", "&", "& ", "&&"}

// nearMiss changes one letter of a directive.
func nearMiss(g *drv.G, s string) string {
	rs := []rune(s)
	i := g.R(1, len(rs)-1)
	switch g.N(6) {
	case 0:
		rs = append(rs[:i], rs[i+1:]...)
	case 1:
		rs = append(rs[:i], append([]rune{rs[g.N(len(rs))]}, rs[i:]...)...)
	case 2:
		rs[i] = drv.Pick(g, []rune("абвеёжиНСКоeocaEHC1_ \n"))
	case 3:
		j := g.R(1, len(rs)-1)
		rs[i], rs[j] = rs[j], rs[i]
	case 4:
		rs = append([]rune{'&'}, append([]rune(drv.Pick(g, []string{" ", "\n", "\t", "//\n", "&"})), rs[1:]...)...)
	default:
		rs = append(rs, drv.Pick(g, []rune("аНю1_")))
	}
	return string(rs)
}

// anyDate makes the text of a date whose parts may be out of range.
func anyDate(g *drv.G) string {
	n := func(w, lo, hi int) string { return fmt.Sprintf("%0*d", w, g.R(lo, hi)) }
	y := drv.Pick(g, []string{"2023", "2024", "1900", "2000", "0001", "0000", "9999", "2100"})
	p := []string{y, n(2, 1, 12), n(2, 28, 31)}
	if g.B() {
		p = []string{y, n(2, 0, 14), n(2, 0, 33)}
	}
	if k := g.N(3); k > 0 {
		p = append(p, n(2, 0, 25), n(2, 0, 61))
		if k > 1 {
			p = append(p, n(2, 0, 61))
		}
	}
	if g.P(1, 4) {
		i := g.N(len(p))
		p[i] = drv.Pick(g, []string{"", "0", "1", "000", "00", "24", "60", "99", "-1", "31", "٣", "²"})
	}
	return strings.Join(p, drv.Pick(g, []string{"", "", "", ".", "-", " ", "T", "\t", "/", "_", "a"}))
}

// fixedFaults: a foreign character with nothing but blanks, comments and regions around it.
func fixedFaults() (out []*drv.Case) {
	for _, f := range append([]string{"\u0085", "\u1680", "\u2000", "\u2003", "\u2009", "\u2029", "\u202f", "\u205f", "\u3000", "\x1c", "\x1f", "\x00"}, foreign...) {
		for _, around := range [][2]string{{"", ""}, {" ", ""}, {"\n", "\n"}, {"", "\r\n"}, {"//к\n", ""}, {"", "\n#Область О"}} {
			out = append(out, &drv.Case{Kind: "character alone", Src: drv.Txt(around[0] + f + around[1])})
		}
		out = append(out, &drv.Case{Kind: "character alone", Src: drv.Txt(f + f)}, &drv.Case{Kind: "character alone", Src: drv.Txt("А = 1;\n" + f)})
	}
	return out
}

func genLexFault(g *drv.G) *drv.Case {
	x := lang.NewGen(g)
	x.Stmts = g.R(1, 6)
	x.Exprs = g.R(2, 24)
	m := x.Module()
	toks := lang.ModuleToks(m, g)
	if len(toks) == 0 {
		return nil
	}
	kind := []string{"character", "directive", "string", "string line", "number", "glued", "date", "open date", "any edit"}[g.W(6, 3, 3, 3, 3, 3, 5, 2, 3)]
	src, toks := lang.Layout(toks, g, g.W(3, 2, 4, 1))
	cut := func(t lang.Tok, s string) *drv.Case {
		return &drv.Case{Kind: kind, Src: drv.Txt(src[:t.Off] + s + src[t.End:])}
	}
	some := func(k ...string) (lang.Tok, bool) {
		var ts []lang.Tok
		for _, t := range toks {
			for _, q := range k {
				if t.Kind == q {
					ts = append(ts, t)
				}
			}
		}
		if len(ts) == 0 {
			return lang.Tok{}, false
		}
		return drv.Pick(g, ts), true
	}
	boundary := func() int {
		i := g.N(len(toks) + 1)
		if i == len(toks) {
			return len(src)
		}
		if g.B() {
			return toks[i].End
		}
		return toks[i].Off
	}
	at := func(s string) *drv.Case {
		if g.B() {
			s = " " + s
		}
		if g.B() {
			s += drv.Pick(g, []string{" ", "\n", "\r\n"})
		}
		return &drv.Case{Kind: kind, Src: drv.Txt(insertAt(src, boundary(), s))}
	}
	switch kind {
	case "character":
		if g.P(1, 4) {
			r := rune(g.R(1, 0x30ff))
			if g.P(1, 3) {
				r = rune(g.R(1, 0xff))
			}
			return at(string(r) + drv.Pick(g, []string{"", "", "=", "а", "1", string(r)}))
		}
		return at(drv.Pick(g, foreign) + drv.Pick(g, []string{"", "", "", "=", "а"}))
	case "directive":
		d := "&" + drv.Pick(g, []string{"НаСервер", "НаКлиентее", "Наклиент", "НаСервереБезКонтекст", "НаКлиентеНаСервереБезКонтекстаа", "Перед", "После", "Вместо", "ИзменениеИКонтроль", "AtServer", "Если", "", "1", "_"})
		if g.B() {
			d = nearMiss(g, drv.Pick(g, lang.Directives))
		}
		if t, ok := some("dir"); ok && g.B() {
			return cut(t, d)
		}
		return at(d)
	case "string":
		if t, ok := some("str"); ok && g.B() {
			return cut(t, t.Text[:len(t.Text)-1])
		}
		return at(`"` + drv.Pick(g, []string{"", "текст", `""`, `"" `, "а\n|б", "//"}))
	case "string line":
		s := `"а` + drv.Pick(g, []string{"\n", "\r\n", "\nб", "\n\n", "\n  // комментарий\n", "\n|б\nв", "\n//\n//\nг", "\n#Область\n"}) + `"`
		if t, ok := some("str"); ok && g.B() {
			return cut(t, s)
		}
		return at(s)
	case "number":
		n := drv.Pick(g, []string{"1..2", "1.2.3", "0..", "1...", "5.0.", "1.2.3.4", "00.0.0"})
		if g.B() {
			n = strconv.Itoa(g.N(1 << g.R(1, 30)))
			for i := g.R(2, 4); i > 0; i-- {
				n = insertAt(n, g.R(1, len(n)), ".")
			}
		}
		if t, ok := some("num"); ok && g.P(2, 3) {
			return cut(t, n)
		}
		return at(n)
	case "glued":
		if g.P(1, 2) { // a number that loses the space before the word behind it
			var ts []int
			for i := 1; i < len(toks); i++ {
				if toks[i-1].Kind == "num" && (lang.KwText[toks[i].Kind] != "" || toks[i].Kind == "id") {
					ts = append(ts, i)
				}
			}
			if len(ts) > 0 {
				i := drv.Pick(g, ts)
				n := toks[i-1].Text
				if g.B() {
					n = drv.Pick(g, []string{"0", "1", "00", "10", "0.", "0.0", "2.5", "1."})
				}
				return &drv.Case{Kind: kind, Src: drv.Txt(src[:toks[i-1].Off] + n + src[toks[i].Off:])}
			}
		}
		n := drv.Pick(g, []string{"1а", "2x", "3_", "1.а", "10.5ж", "1Если", "0Цикл", "5ё", "1е5", "1e5", "0x10", "1_000", "1E+5", "1e-5", "0b1", "1f", "1.5e3", "1_", "1._5"})
		if g.B() {
			n = strconv.Itoa(g.N(1<<g.R(1, 30))) + drv.Pick(g, []string{"", "", ".", ".5", ".25"}) + x.Name()
		}
		if t, ok := some("num"); ok && g.P(2, 3) {
			return cut(t, n)
		}
		return at(n)
	case "date":
		d := "'" + drv.Pick(g, []string{"", "абв", " ", "20241301", "20240230", "20230229", "20240132", "2024010", "202401011", "2024010112", "20240101246000", "202401012400", "20240101235960", "1", "2024", "99999999", "2024-13-01", "20240001", "20240100", "123456789012345", "..", "2024010100000", "0000000000000001"}) + "'"
		if g.P(2, 3) {
			d = "'" + anyDate(g) + "'"
		}
		if t, ok := some("date", "num", "str"); ok && g.P(2, 3) {
			return cut(t, d)
		}
		return at(d)
	case "open date":
		return at("'" + drv.Pick(g, []string{"", "20240101", "абв", "2024\"", "00000000"}))
	}
	// any edit of the text that makes a fault
	i := g.N(len(src) + 1)
	j := min(len(src), i+g.N(4))
	return &drv.Case{Kind: kind, Src: drv.Txt(src[:i] + drv.Pick(g, append(foreign, `"`, "'", "1а", "1.1.1", "\n", "&", "")) + src[j:])}
}
