package lang

import (
	"strconv"
	"strings"

	"verif/harness/drv"
)

// swellSizes lie around the sizes at which counters, buffers and tables change their ways.
var swellSizes = []int{7, 8, 9, 10, 11, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 63, 64, 65, 80, 99, 100, 101, 120, 127, 128, 129, 150, 199, 200, 201, 250, 254, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1100}

// swell makes one list of a module, or one nesting, many times longer than the others.
func (g *Gen) swell(m *Module) {
	n := drv.Pick(g.G, swellSizes)
	if g.B() {
		n = min(n, g.R(10, 300))
	}
	if len(DictInts) > 0 && g.P(3, 4) {
		if k, ok := DictSize(g.G, 5000); ok {
			n = k
		}
	}
	seq, base := 0, drv.Pick(g.G, []string{"д", "Поле", "x_", "Если", "ё"})
	name := func() string {
		if g.Unique {
			return g.Name()
		}
		seq++
		return base + strconv.Itoa(seq)
	}
	chain := func() *Expr { return &Expr{Kind: Chain, Links: []Link{{Name: name()}}} }
	lits := g.N(4)
	item := func() *Expr {
		switch lits {
		case 0:
			return chain()
		case 1:
			return &Expr{Kind: Str, Text: "с" + strconv.Itoa(seq), Src: `"с` + strconv.Itoa(seq) + `"`}
		}
		seq++
		return &Expr{Kind: Num, Text: strconv.Itoa(seq)}
	}
	items := func(n int) []*Expr {
		var out []*Expr
		gaps := g.P(1, 4)
		for i := 0; i < n; i++ {
			if gaps && i%3 != 2 {
				out = append(out, nil)
			} else {
				out = append(out, item())
			}
		}
		if len(out) == 1 && out[0] == nil {
			return nil
		}
		return out
	}
	call := func() *Stmt {
		c := chain()
		c.Links[0].Call = true
		return &Stmt{Kind: CallSt, E: c}
	}
	kind := g.N(7)
	stmt := func() *Stmt {
		switch kind {
		case 1:
			return &Stmt{Kind: Assign, L: chain(), E: item()}
		case 2:
			return &Stmt{Kind: If, Conds: []*Expr{chain()}, Blocks: [][]*Stmt{nil}}
		case 3:
			return &Stmt{Kind: Try, Blocks: [][]*Stmt{nil, {call()}}}
		case 4:
			if seq%2 == 0 {
				return &Stmt{Kind: While, E: chain(), Blocks: [][]*Stmt{{call()}}}
			}
			return &Stmt{Kind: Assign, L: chain(), E: item()}
		case 5:
			if !g.NoContext {
				return &Stmt{Kind: Label, Name: name()}
			}
		}
		return call()
	}

	// the lists there are
	var spots []func()
	add := func(weight int, f func()) {
		for ; weight > 0; weight-- {
			spots = append(spots, f)
		}
	}
	taken := map[string]bool{}
	for _, v := range m.Vars {
		for _, s := range v.Names {
			taken[strings.ToLower(s)] = true
		}
	}
	fresh := func(taken map[string]bool) string {
		for {
			if s := name(); !taken[strings.ToLower(s)] {
				taken[strings.ToLower(s)] = true
				return s
			}
		}
	}
	add(1, func() {
		if len(m.Vars) == 0 || g.B() {
			m.Vars = append(m.Vars, &VarDecl{Names: []string{fresh(taken)}, Export: g.B(), Dir: g.dir()})
		}
		v := drv.Pick(g.G, m.Vars)
		for i := 0; i < n; i++ {
			v.Names = append(v.Names, fresh(taken))
		}
	})
	add(1, func() {
		dir, k := g.dir(), g.N(4)
		for i := 0; i < n; i++ {
			m.Vars = append(m.Vars, &VarDecl{Names: []string{fresh(taken)}, Export: i&3 == k, Dir: dir})
		}
	})
	add(1, func() {
		fn, dir := g.B(), g.dir()
		at := g.N(len(m.Routines) + 1)
		var rs []*Routine
		for i := 0; i < n; i++ {
			rs = append(rs, &Routine{Fn: fn != (i%5 == 0), Name: name(), Dir: dir, Body: []*Stmt{call()}})
		}
		m.Routines = append(m.Routines[:at:at], append(rs, m.Routines[at:]...)...)
	})
	for _, r := range m.Routines {
		names := map[string]bool{}
		for _, p := range r.Params {
			names[strings.ToLower(p.Name)] = true
		}
		for _, l := range r.Locals {
			for _, s := range l {
				names[strings.ToLower(s)] = true
			}
		}
		add(1, func() {
			byval, def := g.N(4), g.N(4)
			for i := 0; i < n; i++ {
				p := Param{Name: fresh(names), ByVal: i%4 == byval}
				if i%4 == def {
					p.Def = &Expr{Kind: Num, Text: strconv.Itoa(i)}
				}
				r.Params = append(r.Params, p)
			}
		})
		add(1, func() {
			if len(r.Locals) == 0 {
				r.Locals = [][]string{{fresh(names)}}
			}
			l := &r.Locals[g.N(len(r.Locals))]
			for i := 0; i < n; i++ {
				*l = append(*l, fresh(names))
			}
		})
		add(1, func() {
			for i := 0; i < n; i++ {
				r.Locals = append(r.Locals, []string{fresh(names)})
			}
		})
	}
	free := func(e **Expr) { // an expression that can be any
		add(1, func() { g.swellExpr(e, n, chain, item, items) })
	}
	list := func(l *[]*Expr) {
		if len(*l) > 0 {
			add(2, func() {
				for _, a := range items(n) {
					*l = append(*l, a)
				}
			})
			for i := range *l {
				if (*l)[i] != nil {
					free(&(*l)[i])
				}
			}
		}
	}
	links := func(e *Expr) {
		if e == nil || e.Kind != Chain {
			return
		}
		for i := range e.Links {
			l := &e.Links[i]
			if l.Call {
				list(&l.Args)
			}
			for k := range l.Idx {
				free(&l.Idx[k])
			}
		}
	}
	places := Places(m)
	for _, p := range places {
		add(2, func() {
			b := *p.B
			at := g.N(len(b) + 1)
			out := append([]*Stmt{}, b[:at]...)
			for i := 0; i < n; i++ {
				out = append(out, stmt())
			}
			*p.B = append(out, b[at:]...)
		})
		add(1, func() { // blocks in blocks
			s := call()
			how := g.N(6)
			for i := min(n, 140); i > 0; i-- {
				b := []*Stmt{s}
				if i%8 == 0 {
					b = append(b, call())
				}
				switch how {
				case 0:
					s = &Stmt{Kind: If, Conds: []*Expr{chain()}, Blocks: [][]*Stmt{b}}
				case 1:
					s = &Stmt{Kind: While, E: chain(), Blocks: [][]*Stmt{b}}
				case 2:
					s = &Stmt{Kind: Try, Blocks: [][]*Stmt{b, nil}}
				case 3:
					s = &Stmt{Kind: Try, Blocks: [][]*Stmt{nil, b}}
				case 4:
					s = &Stmt{Kind: If, Conds: []*Expr{chain()}, Blocks: [][]*Stmt{nil}, Else: b}
				default:
					s = &Stmt{Kind: ForEach, Name: name(), E: chain(), Blocks: [][]*Stmt{b}}
				}
			}
			at := g.N(len(*p.B) + 1)
			*p.B = append((*p.B)[:at:at], append([]*Stmt{s}, (*p.B)[at:]...)...)
		})
		for _, s := range *p.B {
			switch s.Kind {
			case If:
				add(3, func() {
					for i := 0; i < n; i++ {
						var b []*Stmt
						if kind != 0 {
							b = []*Stmt{call()}
						}
						s.Conds, s.Blocks = append(s.Conds, chain()), append(s.Blocks, b)
					}
				})
				for i := range s.Conds {
					free(&s.Conds[i])
				}
			case Assign:
				free(&s.E)
				links(s.L)
				links(s.E)
			case CallSt:
				links(s.E)
			case Return:
				if s.E != nil {
					free(&s.E)
				}
			case While:
				free(&s.E)
			case Throw:
				if len(s.Args) > 1 {
					list(&s.Args)
				}
			}
		}
	}
	drv.Pick(g.G, spots)()
}

// swellExpr puts something long or deep in place of an expression, or around it.
func (g *Gen) swellExpr(e **Expr, n int, chain, item func() *Expr, items func(int) []*Expr) {
	old := *e
	switch g.N(9) {
	case 0: // a long sum
		op := drv.Pick(g.G, binOps)
		p := lvl[op]
		for i := 0; i < n; i++ {
			old = &Expr{Kind: Bin, Text: op, L: g.level(old, p), R: item()}
		}
		*e = old
	case 1: // to the right
		op := drv.Pick(g.G, binOps)
		for i := 0; i < min(n, 300); i++ {
			old = &Expr{Kind: Bin, Text: op, L: item(), R: &Expr{Kind: Paren, L: old}}
		}
		*e = old
	case 2:
		for i := 0; i < min(n, 300); i++ {
			old = &Expr{Kind: Paren, L: old}
		}
		*e = old
	case 3:
		if g.NoMarks {
			return
		}
		old = chain()
		k := Not
		if g.B() {
			k = Neg
		}
		for i := 0; i < min(n, 300); i++ {
			old = &Expr{Kind: k, L: old}
		}
		*e = old
	case 4: // links
		c := chain()
		for i := 0; i < n; i++ {
			l := Link{Name: g.memberName()}
			if i > 50 {
				l.Name = chain().Links[0].Name
			}
			if i%7 == 6 {
				l.Call = true
			}
			c.Links = append(c.Links, l)
		}
		*e = c
	case 5: // indexes
		c := chain()
		for i := 0; i < n; i++ {
			c.Links[0].Idx = append(c.Links[0].Idx, item())
		}
		*e = c
	case 6: // arguments
		c := chain()
		c.Links[0].Call, c.Links[0].Args = true, items(n)
		if g.P(1, 3) {
			c = &Expr{Kind: New, Text: c.Links[0].Name, Par: true, Args: c.Links[0].Args}
		}
		*e = c
	case 7: // lines of a string, or adjoining strings
		var src, val strings.Builder
		src.WriteByte('"')
		how := g.N(4)
		for i := 0; i < n; i++ {
			line := "строка " + strconv.Itoa(i)
			if how == 3 {
				line = strings.Repeat(`""`, i%4)
			}
			switch how {
			case 0, 3:
				src.WriteString("\n|" + line)
				val.WriteString("\n|" + line)
			case 1:
				src.WriteString("\n\t// к\n  |" + line)
				val.WriteString("\n|" + line)
			case 2:
				src.WriteString(line + "\"\n\"")
				val.WriteString(line)
			}
		}
		src.WriteByte('"')
		*e = &Expr{Kind: Str, Text: val.String(), Src: src.String()}
	case 8: // calls in calls, ternaries in ternaries
		how := g.N(3)
		for i := 0; i < min(n, 200); i++ {
			c := chain()
			switch how {
			case 0:
				c.Links[0].Call, c.Links[0].Args = true, []*Expr{old}
			case 1:
				c.Links[0].Idx = []*Expr{old}
			default:
				c = &Expr{Kind: Tern, C: c, L: item(), R: old}
			}
			old = c
		}
		*e = old
	}
}
