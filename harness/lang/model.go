// Package lang is an independent description of the 1C language subset the parser claims:
// a program model with a canonical text form, a scanner, a recursive-descent reader, a
// recogniser of the grammar, a program generator and a layout engine. It shares no code
// with the parser under test.
package lang

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type Module struct {
	Vars     []*VarDecl
	Routines []*Routine
	Body     []*Stmt
	Late     bool // a variable is declared behind a routine (reader only)
}

type VarDecl struct {
	Dir    string
	Names  []string
	Export bool
	Span   [2]int // tokens of the declaration (reader only)
	Late   bool   // stands behind a routine (reader only)
}

type Routine struct {
	Fn     bool
	Dir    string
	Name   string
	Params []Param
	Export bool
	Locals [][]string
	Body   []*Stmt
	EndTok int      // index of the closing keyword (reader only)
	Spans  [][2]int // tokens of the local declarations (reader only)
}

type Param struct {
	Name  string
	ByVal bool
	Def   *Expr
}

type StmtKind int

const (
	Assign StmtKind = iota
	CallSt          // E is a chain (or any expression)
	If
	ForEach
	For
	While
	Try
	Throw
	Return
	Break
	Continue
	Goto
	Label
	Exec
)

var stmtNames = []string{"assign", "call", "if", "foreach", "for", "while", "try", "throw", "return", "break", "continue", "goto", "label", "exec"}

func (k StmtKind) String() string { return stmtNames[k] }

type Stmt struct {
	Kind   StmtKind
	Name   string    // loop variable, label
	L      *Expr     // assignment target
	E, E2  *Expr     // value; for bounds
	Args   []*Expr   // raise with several values
	Conds  []*Expr   // if
	Blocks [][]*Stmt // if: one per condition; loops: body; try: body, handler
	Else   []*Stmt
	Form   int // spelling variants: Exec 0 parenthesised, 1 bare
	// filled in by the reader
	Tok  int   // index of the first token
	End  int   // index behind the last token
	Keys []int // indexes of the middle and closing keywords
}

type ExprKind int

const (
	Num ExprKind = iota
	Str
	Date
	Bool
	Undef
	Chain
	Neg
	Plus
	Not
	Bin
	Paren
	Tern
	New
)

var exprNames = []string{"num", "str", "date", "bool", "undef", "chain", "neg", "plus", "not", "bin", "paren", "tern", "new"}

func (k ExprKind) String() string { return exprNames[k] }

type Link struct {
	Name string
	Call bool
	Args []*Expr // nil entries are omitted arguments; nil: no arguments
	Idx  []*Expr
}

type Expr struct {
	Kind  ExprKind
	Text  string  // Num: digits; Str: value text; Date: digits; Bin: operator; New: constructor
	Src   string  // Str, Date: spelling
	B     bool    // Bool
	L, R  *Expr   // Bin; L: operand of Neg, Plus, Not, Paren
	C     *Expr   // Tern condition
	Links []Link  // Chain
	Args  []*Expr // New, Paren with several values
	Par   bool    // New: has parentheses
}

// ---- canonical text ----

// Dump options: with Marks the negations are shown (and normalised); without them they are
// dropped, and literals are folded the way a tree without visible marks shows them.
type dumper struct {
	b     strings.Builder
	marks bool
}

func (d *dumper) f(format string, a ...any) { fmt.Fprintf(&d.b, format, a...) }

// DumpModule is the canonical text of a module.
func DumpModule(m *Module, marks bool) string {
	d := &dumper{marks: marks}
	var vs []string
	for _, v := range m.Vars {
		for _, n := range v.Names {
			vs = append(vs, VarLine(n, v.Dir, v.Export))
		}
	}
	sort.Strings(vs)
	d.b.WriteString(strings.Join(vs, ""))
	for _, r := range m.Routines {
		d.routine(r)
	}
	d.block(m.Body, 0)
	return d.b.String()
}

func VarLine(name, dir string, export bool) string {
	return fmt.Sprintf("var %s dir=%q export=%v\n", name, dir, export)
}

// RoutineHead is the canonical text of a routine's declaration.
func RoutineHead(fn bool, name, dir string, export bool, params []string, locals []string) string {
	k := "procedure"
	if fn {
		k = "function"
	}
	sort.Strings(locals)
	return fmt.Sprintf("%s %s dir=%q export=%v (%s) locals[%s]\n", k, name, dir, export, strings.Join(params, "; "), strings.Join(locals, " "))
}

func ParamText(name string, byVal bool, def string) string {
	s := name
	if byVal {
		s = "val " + s
	}
	if def != "" {
		s += "=" + def
	}
	return s
}

func (d *dumper) routine(r *Routine) {
	var ps, ls []string
	for _, p := range r.Params {
		def := ""
		if p.Def != nil {
			def = DumpExpr(p.Def, d.marks)
		}
		ps = append(ps, ParamText(p.Name, p.ByVal, def))
	}
	for _, l := range r.Locals {
		ls = append(ls, l...)
	}
	d.b.WriteString(RoutineHead(r.Fn, r.Name, r.Dir, r.Export, ps, ls))
	d.block(r.Body, 1)
	d.f("end\n")
}

func DumpStmts(ss []*Stmt, marks bool) string {
	d := &dumper{marks: marks}
	d.block(ss, 0)
	return d.b.String()
}

func (d *dumper) e(e *Expr) string { return DumpExpr(e, d.marks) }

func (d *dumper) block(ss []*Stmt, lvl int) {
	ind := strings.Repeat(" ", lvl)
	for _, s := range ss {
		d.b.WriteString(ind)
		switch s.Kind {
		case Assign:
			d.f("%s := %s\n", d.e(s.L), d.e(s.E))
		case CallSt:
			d.f("expr %s\n", d.e(s.E))
		case If:
			for i, c := range s.Conds {
				if i > 0 {
					d.b.WriteString(ind)
					d.f("else")
				}
				d.f("if %s\n", d.e(c))
				d.block(s.Blocks[i], lvl+1)
			}
			if len(s.Else) > 0 {
				d.f("%selse\n", ind)
				d.block(s.Else, lvl+1)
			}
			d.f("%send\n", ind)
		case ForEach:
			d.f("foreach %s in %s\n", s.Name, d.e(s.E))
			d.block(s.Blocks[0], lvl+1)
			d.f("%send\n", ind)
		case For:
			d.f("for %s = %s to %s\n", s.Name, d.e(s.E), d.e(s.E2))
			d.block(s.Blocks[0], lvl+1)
			d.f("%send\n", ind)
		case While:
			d.f("while %s\n", d.e(s.E))
			d.block(s.Blocks[0], lvl+1)
			d.f("%send\n", ind)
		case Try:
			d.f("try\n")
			d.block(s.Blocks[0], lvl+1)
			d.f("%scatch\n", ind)
			d.block(s.Blocks[1], lvl+1)
			d.f("%send\n", ind)
		case Throw:
			d.f("throw%s\n", argText(s.Args, d.marks))
		case Return:
			if s.E == nil {
				d.f("return\n")
			} else {
				d.f("return %s\n", d.e(s.E))
			}
		case Break, Continue:
			d.f("%s\n", s.Kind)
		case Goto, Label:
			d.f("%s ~%s\n", s.Kind, s.Name)
		case Exec:
			d.f("expr %s(%s)\n", CallName(s.Name), d.e(s.E))
		}
	}
}

// CallName hides the letter case of the one keyword that the tree keeps as a method name.
func CallName(s string) string {
	if Lower(s) == "выполнить" {
		return "выполнить"
	}
	return s
}

func argText(args []*Expr, marks bool) string {
	ss := make([]string, len(args))
	for i, a := range args {
		if a == nil {
			ss[i] = "_"
		} else {
			ss[i] = DumpExpr(a, marks)
		}
	}
	return "(" + strings.Join(ss, ",") + ")"
}

// NumText is the canonical text of a number.
func NumText(f float64) string {
	if f == 0 {
		f = 0 // no negative zero
		return "#0"
	}
	return "#" + strconv.FormatFloat(f, 'g', -1, 64)
}

func StrText(s string) string { return strconv.Quote(s) }

// DateText takes the 14 digits of a moment; all forms of the empty date are the same.
func DateText(d string) string {
	if strings.Trim(d, "0") == "" || (d + "000000")[:14] == "00010101000000" {
		return "@0"
	}
	return "@" + (d + "000000")[:14]
}

func BoolText(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func numVal(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return math.NaN()
	}
	return f
}

// fold computes the literal that НЕ and minus written directly before a literal produce in
// the tree (parentheses stop it).
func fold(e *Expr) (float64, bool, ExprKind) {
	switch e.Kind {
	case Num:
		return numVal(e.Text), false, Num
	case Bool:
		return 0, e.B, Bool
	case Plus:
		return fold(e.L)
	case Neg:
		if f, _, k := fold(e.L); k == Num {
			return -f, false, Num
		}
	case Not:
		if _, b, k := fold(e.L); k == Bool {
			return 0, !b, Bool
		}
	}
	return 0, false, -1
}

// DumpExpr is the canonical text of an expression. Grouping is explicit, so parentheses
// of the source are not shown.
func DumpExpr(e *Expr, marks bool) string {
	switch e.Kind {
	case Num:
		return NumText(numVal(e.Text))
	case Str:
		return StrText(e.Text)
	case Date:
		return DateText(e.Text)
	case Bool:
		return BoolText(e.B)
	case Undef:
		return "undef"
	case Plus:
		return DumpExpr(e.L, marks)
	case Paren:
		if len(e.Args) > 0 {
			return "tuple" + argText(e.Args, marks)
		}
		return DumpExpr(e.L, marks)
	case Neg, Not:
		if !marks {
			if f, b, k := fold(e); k == Num {
				return NumText(f)
			} else if k == Bool {
				return BoolText(b)
			}
			return DumpExpr(e.L, false)
		}
		s := DumpExpr(e.L, true)
		if e.Kind == Neg {
			switch {
			case s == "#0":
				return s
			case strings.HasPrefix(s, "#-"):
				return "#" + s[2:]
			case strings.HasPrefix(s, "#"):
				return "#-" + s[1:]
			}
			return "(neg " + s + ")"
		}
		switch {
		case s == "true":
			return "false"
		case s == "false":
			return "true"
		}
		return "(not " + s + ")"
	case Bin:
		return "(" + DumpExpr(e.L, marks) + " " + e.Text + " " + DumpExpr(e.R, marks) + ")"
	case Tern:
		return "?(" + DumpExpr(e.C, marks) + "," + DumpExpr(e.L, marks) + "," + DumpExpr(e.R, marks) + ")"
	case New:
		return "new " + e.Text + argText(e.Args, marks)
	case Chain:
		var b strings.Builder
		for i, l := range e.Links {
			if i > 0 {
				b.WriteString(".")
			}
			b.WriteString(l.Name)
			if l.Call {
				b.WriteString(argText(l.Args, marks))
			}
			for _, x := range l.Idx {
				b.WriteString("[" + DumpExpr(x, marks) + "]")
			}
		}
		return b.String()
	}
	return "?"
}
