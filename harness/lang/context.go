package lang

import "verif/harness/drv"

// Violation is one place where a context rule is broken.
type Violation struct {
	Rule     string
	Stmt     *Stmt  // the statement, if it is one
	Name     string // the duplicate variable
	From, To int    // tokens of the statement or declaration (only when the reader made the module)
}

func (v Violation) String() string { return v.Rule + " " + v.Name }

// Context lists the violations of the context rules in a module.
func Context(m *Module) []Violation {
	var out []Violation
	stmt := func(rule string, s *Stmt) {
		out = append(out, Violation{Rule: rule, Stmt: s, From: s.Tok, To: s.End})
	}
	names := map[string]bool{}
	for _, v := range m.Vars {
		for _, n := range v.Names {
			if names[n] {
				out = append(out, Violation{Rule: "duplicate module variable", Name: n, From: v.Span[0], To: v.Span[1]})
			}
			names[n] = true
		}
		if v.Late {
			out = append(out, Violation{Rule: "module variable behind a routine", From: v.Span[0], To: v.Span[1]})
		}
	}
	var block func(ss []*Stmt, loop, catch, fn bool)
	block = func(ss []*Stmt, loop, catch, fn bool) {
		for _, s := range ss {
			switch s.Kind {
			case Break, Continue:
				if !loop {
					stmt(s.Kind.String()+" outside a loop", s)
				}
			case Throw:
				if len(s.Args) == 0 && !catch {
					stmt("raise without a value outside a handler", s)
				}
			case Return:
				if s.E != nil && !fn {
					stmt("value returned outside a function", s)
				}
			}
			l := loop || s.Kind == ForEach || s.Kind == For || s.Kind == While
			for i, b := range s.Blocks {
				block(b, l, catch || s.Kind == Try && i == 1, fn)
			}
			block(s.Else, l, catch, fn)
		}
	}
	for _, r := range m.Routines {
		ls := map[string]bool{}
		for i, l := range r.Locals {
			for _, n := range l {
				if ls[n] {
					v := Violation{Rule: "duplicate local variable", Name: n}
					if i < len(r.Spans) {
						v.From, v.To = r.Spans[i][0], r.Spans[i][1]
					}
					out = append(out, v)
				}
				ls[n] = true
			}
		}
		block(r.Body, false, false, r.Fn)
	}
	block(m.Body, false, false, false)
	return out
}

// Place is a block of a module that a statement can be put into.
type Place struct {
	B               *[]*Stmt
	Loop, Catch, Fn bool
	Routine         *Routine
	Depth           int
}

// Places lists every block.
func Places(m *Module) []Place {
	var out []Place
	var rec func(p Place)
	rec = func(p Place) {
		out = append(out, p)
		for _, s := range *p.B {
			q := p
			q.Depth++
			q.Loop = p.Loop || s.Kind == ForEach || s.Kind == For || s.Kind == While
			for i := range s.Blocks {
				q.B = &s.Blocks[i]
				q.Catch = p.Catch || s.Kind == Try && i == 1
				rec(q)
			}
			if s.Kind == If {
				q.B, q.Catch = &s.Else, p.Catch
				rec(q)
			}
		}
	}
	for _, r := range m.Routines {
		rec(Place{B: &r.Body, Fn: r.Fn, Routine: r})
	}
	rec(Place{B: &m.Body})
	return out
}

// Insert puts a statement into a block at a random position.
func (p Place) Insert(g *drv.G, s *Stmt) {
	b := *p.B
	i := g.N(len(b) + 1)
	out := append([]*Stmt{}, b[:i]...)
	*p.B = append(append(out, s), b[i:]...)
}

// AllExprs calls f for every expression node of a module.
func AllExprs(m *Module, f func(e *Expr)) {
	var ex func(e *Expr)
	ex = func(e *Expr) {
		if e == nil {
			return
		}
		f(e)
		ex(e.C)
		ex(e.L)
		ex(e.R)
		for _, a := range e.Args {
			ex(a)
		}
		for _, l := range e.Links {
			for _, a := range l.Args {
				ex(a)
			}
			for _, a := range l.Idx {
				ex(a)
			}
		}
	}
	AllStmts(m, func(s *Stmt) {
		ex(s.L)
		ex(s.E)
		ex(s.E2)
		for _, e := range s.Conds {
			ex(e)
		}
		for _, e := range s.Args {
			ex(e)
		}
	})
	for _, r := range m.Routines {
		for _, p := range r.Params {
			ex(p.Def)
		}
	}
}

// AllStmts calls f for every statement of a module.
func AllStmts(m *Module, f func(s *Stmt)) {
	for _, p := range Places(m) {
		for _, s := range *p.B {
			f(s)
		}
	}
}

// RandTok makes one token of a random kind.
func RandTok(g *drv.G) Tok {
	ts := Terminals()
	return TokOf(g, ts[g.N(len(ts))])
}

// TokOf makes a token of a kind.
func TokOf(g *drv.G, k string) Tok {
	if t, ok := KwText[k]; ok {
		return Tok{Kind: k, Text: Recase(g, t)}
	}
	switch k {
	case "id":
		return Tok{Kind: k, Text: drv.Pick(g, simpleNames)}
	case "num":
		return Tok{Kind: k, Text: drv.Pick(g, []string{"1", "42", "0.5"})}
	case "str":
		return Tok{Kind: k, Text: drv.Pick(g, []string{`""`, `"а"`, `"а ""б"" //"`, "\"а\n|б\"", `"x" "y"`})}
	case "date":
		return Tok{Kind: k, Text: drv.Pick(g, []string{"'20240101'", "'00000000'", "'2024.01.02 03:04:05'"})}
	case "dir":
		return Tok{Kind: k, Text: drv.Pick(g, Directives)}
	case "label":
		return Tok{Kind: k, Text: "~" + drv.Pick(g, simpleNames)}
	case "eq":
		return Tok{Kind: k, Text: "="}
	case "ne":
		return Tok{Kind: k, Text: "<>"}
	case "le":
		return Tok{Kind: k, Text: "<="}
	case "ge":
		return Tok{Kind: k, Text: ">="}
	}
	return Tok{Kind: k, Text: k}
}

// Mutate changes a token sequence in one place.
func Mutate(g *drv.G, in []Tok) []Tok {
	t := append([]Tok(nil), in...)
	n := len(t)
	cut := func(i, j int) []Tok { return append(append([]Tok(nil), t[:i]...), t[j:]...) }
	put := func(i int, x ...Tok) []Tok {
		return append(append(append([]Tok(nil), t[:i]...), x...), t[i:]...)
	}
	if n == 0 {
		return []Tok{RandTok(g)}
	}
	switch g.W(5, 5, 3, 3, 5, 2, 2, 1, 2) {
	case 0: // a token missing
		i := g.N(n)
		return cut(i, i+1)
	case 1: // a token too many
		return put(g.N(n+1), RandTok(g))
	case 2: // a token twice
		i := g.N(n)
		return put(i, t[i])
	case 3: // neighbours swapped
		if n > 1 {
			i := g.N(n - 1)
			t[i], t[i+1] = t[i+1], t[i]
		}
		return t
	case 4: // a token replaced
		t[g.N(n)] = RandTok(g)
		return t
	case 5: // cut off
		return t[:g.N(n)]
	case 6: // a run missing
		i := g.N(n)
		return cut(i, min(n, i+1+g.N(5)))
	case 7: // a token moved
		i := g.N(n)
		x := t[i]
		t = cut(i, i+1)
		return put(g.N(len(t)+1), x)
	default: // a separator or bracket missing or too many
		var at []int
		for i, x := range t {
			switch x.Kind {
			case ";", "(", ")", ",", "[", "]", "then", "loop", "endif", "endloop", "endtry", "endproc", "endfunc", "catch":
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return cut(0, 1)
		}
		i := at[g.N(len(at))]
		if g.B() {
			return cut(i, i+1)
		}
		return put(i, t[i])
	}
}
