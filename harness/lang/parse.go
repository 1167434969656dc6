package lang

import (
	"fmt"

	"verif/harness/drv"
)

// SynError is a syntax fault: the index of the first offending token (len(toks) at the end).
type SynError struct {
	At  int
	Msg string
}

func (e *SynError) Error() string { return fmt.Sprintf("token %d: %s", e.At, e.Msg) }

type parser struct {
	t []Tok
	i int
}

// Read is the independent reader: text to program model. It reads the well-formed modules
// the properties speak about; it is not a validator of context rules.
func Read(src string) (m *Module, err error) {
	drv.Ref(func() {
		toks, le := Lex(src)
		if le != nil {
			err = le
			return
		}
		m, err = ReadToks(toks)
	})
	return
}

func ReadToks(toks []Tok) (m *Module, err error) {
	p := &parser{t: toks}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(*SynError); ok {
				m, err = nil, se
				return
			}
			panic(r)
		}
	}()
	m = p.module()
	if p.i < len(p.t) {
		p.fail("end of text expected")
	}
	return m, nil
}

func (p *parser) fail(msg string) { panic(&SynError{p.i, msg}) }
func (p *parser) k() string {
	if p.i < len(p.t) {
		return p.t[p.i].Kind
	}
	return ""
}
func (p *parser) kAt(n int) string {
	if p.i+n < len(p.t) {
		return p.t[p.i+n].Kind
	}
	return ""
}
func (p *parser) is(k string) bool { return p.k() == k }
func (p *parser) acc(k string) bool {
	if p.k() == k {
		p.i++
		return true
	}
	return false
}
func (p *parser) want(k string) Tok {
	if p.k() != k {
		p.fail(k + " expected")
	}
	p.i++
	return p.t[p.i-1]
}

func (p *parser) module() *Module {
	m := &Module{}
	for {
		n := 0
		if p.is("dir") {
			n = 1
		}
		switch p.kAt(n) {
		case "var":
			v := &VarDecl{Late: len(m.Routines) > 0}
			v.Span[0] = p.i
			if n == 1 {
				v.Dir = p.want("dir").Text
			}
			p.want("var")
			v.Names = p.names()
			v.Export = p.acc("export")
			p.want(";")
			v.Span[1] = p.i
			m.Vars = append(m.Vars, v)
			m.Late = m.Late || len(m.Routines) > 0
			continue
		case "proc", "func":
			r := &Routine{Fn: p.kAt(n) == "func"}
			if n == 1 {
				r.Dir = p.want("dir").Text
			}
			p.i++
			r.Name = p.want("id").Text
			p.want("(")
			if !p.is(")") {
				for {
					var a Param
					a.ByVal = p.acc("val")
					a.Name = p.want("id").Text
					if p.acc("eq") {
						a.Def = p.simple()
					}
					r.Params = append(r.Params, a)
					if !p.acc(",") {
						break
					}
				}
			}
			p.want(")")
			r.Export = p.acc("export")
			for p.acc("var") {
				at := p.i - 1
				r.Locals = append(r.Locals, p.names())
				p.want(";")
				r.Spans = append(r.Spans, [2]int{at, p.i})
			}
			r.Body = p.block()
			r.EndTok = p.i
			if r.Fn {
				p.want("endfunc")
			} else {
				p.want("endproc")
			}
			m.Routines = append(m.Routines, r)
			continue
		}
		if n == 1 {
			p.i++
			p.fail("declaration expected")
		}
		break
	}
	m.Body = p.block()
	return m
}

func (p *parser) names() []string {
	ns := []string{p.want("id").Text}
	for p.acc(",") {
		ns = append(ns, p.want("id").Text)
	}
	return ns
}

func (p *parser) block() []*Stmt {
	var out []*Stmt
	for {
		for p.acc(";") {
		}
		if !p.startsStmt() {
			return out
		}
		at := p.i
		s := p.stmt()
		s.Tok, s.End = at, p.i
		out = append(out, s)
		if s.Kind == Label {
			if !p.acc(":") {
				p.want(";")
			}
			continue
		}
		if !p.is(";") {
			return out
		}
	}
}

func (p *parser) startsStmt() bool {
	switch p.k() {
	case "id", "if", "for", "while", "try", "throw", "return", "break", "continue", "goto", "label", "exec",
		"(", "?", "new", "-", "+", "not", "num", "str", "true", "false", "undef", "date":
		return true
	}
	return false
}

func (p *parser) stmt() *Stmt {
	switch p.k() {
	case "if":
		s := &Stmt{Kind: If}
		p.i++
		for {
			s.Conds = append(s.Conds, p.expr())
			p.want("then")
			s.Blocks = append(s.Blocks, p.block())
			s.Keys = append(s.Keys, p.i)
			if !p.acc("elseif") {
				break
			}
		}
		if p.acc("else") {
			s.Else = p.block()
			s.Keys = append(s.Keys, p.i)
		}
		p.want("endif")
		return s
	case "for":
		p.i++
		if p.acc("each") {
			s := &Stmt{Kind: ForEach}
			s.Name = p.want("id").Text
			p.want("in")
			s.E = p.expr()
			p.want("loop")
			s.Blocks = [][]*Stmt{p.block()}
			s.Keys = []int{p.i}
			p.want("endloop")
			return s
		}
		s := &Stmt{Kind: For}
		s.Name = p.want("id").Text
		p.want("eq")
		s.E = p.expr()
		p.want("to")
		s.E2 = p.expr()
		p.want("loop")
		s.Blocks = [][]*Stmt{p.block()}
		s.Keys = []int{p.i}
		p.want("endloop")
		return s
	case "while":
		p.i++
		s := &Stmt{Kind: While, E: p.expr()}
		p.want("loop")
		s.Blocks = [][]*Stmt{p.block()}
		s.Keys = []int{p.i}
		p.want("endloop")
		return s
	case "try":
		p.i++
		s := &Stmt{Kind: Try}
		b := p.block()
		s.Keys = append(s.Keys, p.i)
		p.want("catch")
		s.Blocks = [][]*Stmt{b, p.block()}
		s.Keys = append(s.Keys, p.i)
		p.want("endtry")
		return s
	case "throw":
		p.i++
		s := &Stmt{Kind: Throw}
		if p.startsExpr() {
			e := p.expr()
			if e.Kind == Paren && len(e.Args) > 0 {
				s.Args = e.Args
			} else {
				s.Args = []*Expr{e}
			}
		}
		return s
	case "return":
		p.i++
		s := &Stmt{Kind: Return}
		if p.startsExpr() {
			s.E = p.expr()
		}
		return s
	case "break":
		p.i++
		return &Stmt{Kind: Break}
	case "continue":
		p.i++
		return &Stmt{Kind: Continue}
	case "goto":
		p.i++
		return &Stmt{Kind: Goto, Name: p.want("label").Val}
	case "label":
		p.i++
		return &Stmt{Kind: Label, Name: p.t[p.i-1].Val}
	case "exec":
		p.i++
		s := &Stmt{Kind: Exec, Name: p.t[p.i-1].Text}
		switch {
		case p.acc("("):
			s.E = p.expr()
			p.want(")")
		case p.is("str"):
			s.Form = 1
			s.E = p.primary()
		default:
			s.Form = 1
			s.E = &Expr{Kind: Chain, Links: []Link{{Name: p.want("id").Text}}}
		}
		return s
	case "id":
		c := p.chain()
		if p.acc("eq") {
			return &Stmt{Kind: Assign, L: c, E: p.expr()}
		}
		return &Stmt{Kind: CallSt, E: p.binary(c, 0)}
	}
	return &Stmt{Kind: CallSt, E: p.expr()}
}

func (p *parser) startsExpr() bool {
	switch p.k() {
	case "id", "(", "?", "new", "-", "+", "not", "num", "str", "true", "false", "undef", "date":
		return true
	}
	return false
}

var prec = map[string]int{
	"or": 1, "and": 2,
	"eq": 4, "ne": 4, "<": 4, ">": 4, "le": 4, "ge": 4,
	"+": 5, "-": 5, "*": 6, "/": 6, "%": 6,
}

// OpText is the spelling of a binary operator in the canonical text.
var OpText = map[string]string{"or": "ИЛИ", "and": "И", "eq": "=", "ne": "<>", "<": "<", ">": ">", "le": "<=", "ge": ">=", "+": "+", "-": "-", "*": "*", "/": "/", "%": "%"}

func (p *parser) expr() *Expr { return p.binary(p.unary(), 0) }

// binary continues an expression whose first operand is read, taking operators of at
// least the given level.
func (p *parser) binary(l *Expr, min int) *Expr {
	for {
		pr, ok := prec[p.k()]
		if !ok || pr < min {
			return l
		}
		op := OpText[p.k()]
		p.i++
		r := p.binary(p.unary(), pr+1)
		l = &Expr{Kind: Bin, Text: op, L: l, R: r}
	}
}

func (p *parser) unary() *Expr {
	switch p.k() {
	case "not":
		p.i++
		return &Expr{Kind: Not, L: p.binary(p.unary(), 4)}
	case "-":
		p.i++
		return &Expr{Kind: Neg, L: p.unary()}
	case "+":
		p.i++
		return &Expr{Kind: Plus, L: p.unary()}
	}
	return p.primary()
}

func (p *parser) simple() *Expr {
	switch p.k() {
	case "-":
		p.i++
		return &Expr{Kind: Neg, L: p.simple()}
	case "+":
		p.i++
		return &Expr{Kind: Plus, L: p.simple()}
	case "num", "str", "true", "false", "undef", "date":
		return p.primary()
	}
	p.fail("literal expected")
	return nil
}

func (p *parser) primary() *Expr {
	t := p.k()
	switch t {
	case "num":
		p.i++
		return &Expr{Kind: Num, Text: p.t[p.i-1].Text}
	case "str":
		p.i++
		return &Expr{Kind: Str, Text: p.t[p.i-1].Val, Src: p.t[p.i-1].Text}
	case "date":
		p.i++
		return &Expr{Kind: Date, Text: p.t[p.i-1].Val, Src: p.t[p.i-1].Text}
	case "true", "false":
		p.i++
		return &Expr{Kind: Bool, B: t == "true"}
	case "undef":
		p.i++
		return &Expr{Kind: Undef}
	case "id":
		return p.chain()
	case "(":
		p.i++
		as := p.args()
		p.want(")")
		if len(as) == 1 && as[0] != nil {
			return &Expr{Kind: Paren, L: as[0]}
		}
		if len(as) == 0 {
			p.i--
			p.fail("expression expected")
		}
		return &Expr{Kind: Paren, Args: as}
	case "?":
		p.i++
		e := &Expr{Kind: Tern}
		p.want("(")
		e.C = p.expr()
		p.want(",")
		e.L = p.expr()
		p.want(",")
		e.R = p.expr()
		p.want(")")
		return e
	case "new":
		p.i++
		e := &Expr{Kind: New}
		if p.is("id") {
			e.Text = p.want("id").Text
			if p.acc("(") {
				e.Par = true
				e.Args = p.args()
				p.want(")")
			}
			return e
		}
		p.want("(")
		e.Par = true
		e.Args = p.args()
		p.want(")")
		return e
	}
	p.fail("operand expected")
	return nil
}

// args reads an argument list up to the closing bracket; an empty list is nil.
func (p *parser) args() []*Expr {
	var out []*Expr
	for {
		if p.startsExpr() {
			out = append(out, p.expr())
		} else {
			out = append(out, nil)
		}
		if !p.acc(",") {
			break
		}
	}
	if len(out) == 1 && out[0] == nil {
		return nil
	}
	return out
}

func (p *parser) chain() *Expr {
	e := &Expr{Kind: Chain}
	for {
		l := Link{Name: p.want("id").Text}
		if p.acc("(") {
			l.Call = true
			l.Args = p.args()
			p.want(")")
		}
		for p.acc("[") {
			l.Idx = append(l.Idx, p.expr())
			p.want("]")
		}
		e.Links = append(e.Links, l)
		if !p.acc(".") {
			return e
		}
	}
}
