package lang

import (
	"strings"
	"unicode/utf8"

	"verif/harness/drv"
)

// Toks spells a module as a token sequence. Empty statements and optional separators are
// drawn from g (nil: none).
type speller struct {
	g   *drv.G
	out []Tok
}

func (s *speller) kw(k string) {
	t := KwText[k]
	if s.g != nil {
		t = Recase(s.g, t)
	}
	s.out = append(s.out, Tok{Kind: k, Text: t})
}
func (s *speller) tok(k, text string) { s.out = append(s.out, Tok{Kind: k, Text: text}) }
func (s *speller) p(ps ...string) {
	for _, k := range ps {
		s.tok(k, k)
	}
}
func (s *speller) id(n string) { s.tok("id", n) }

// ModuleToks spells a module.
func ModuleToks(m *Module, g *drv.G) []Tok {
	s := &speller{g: g}
	for _, v := range m.Vars {
		s.vars(v)
	}
	for _, r := range m.Routines {
		s.routine(r)
	}
	s.block(m.Body)
	return s.out
}

func RoutineToks(r *Routine, g *drv.G) []Tok {
	s := &speller{g: g}
	s.routine(r)
	return s.out
}

func VarToks(v *VarDecl, g *drv.G) []Tok {
	s := &speller{g: g}
	s.vars(v)
	return s.out
}

func BlockToks(b []*Stmt, g *drv.G) []Tok {
	s := &speller{g: g}
	s.block(b)
	return s.out
}

func ExprToks(e *Expr, g *drv.G) []Tok {
	s := &speller{g: g}
	s.expr(e)
	return s.out
}

func (s *speller) vars(v *VarDecl) {
	if v.Dir != "" {
		s.tok("dir", v.Dir)
	}
	s.kw("var")
	s.names(v.Names)
	if v.Export {
		s.kw("export")
	}
	s.p(";")
}

func (s *speller) names(ns []string) {
	for i, n := range ns {
		if i > 0 {
			s.p(",")
		}
		s.id(n)
	}
}

func (s *speller) routine(r *Routine) {
	if r.Dir != "" {
		s.tok("dir", r.Dir)
	}
	b, e := "proc", "endproc"
	if r.Fn {
		b, e = "func", "endfunc"
	}
	s.kw(b)
	s.id(r.Name)
	s.p("(")
	for i, p := range r.Params {
		if i > 0 {
			s.p(",")
		}
		if p.ByVal {
			s.kw("val")
		}
		s.id(p.Name)
		if p.Def != nil {
			s.tok("eq", "=")
			s.expr(p.Def)
		}
	}
	s.p(")")
	if r.Export {
		s.kw("export")
	}
	for _, l := range r.Locals {
		s.kw("var")
		s.names(l)
		s.p(";")
	}
	s.block(r.Body)
	s.kw(e)
}

func (s *speller) block(ss []*Stmt) {
	empty := func() {
		if s.g != nil && s.g.P(1, 9) {
			for i := 1 + s.g.Geo(1, 3, 2); i > 0; i-- {
				s.p(";")
			}
		}
	}
	empty()
	for i, st := range ss {
		s.stmt(st)
		switch {
		case st.Kind == Label:
			s.p(":")
		case i < len(ss)-1:
			s.p(";")
		case s.g == nil || s.g.P(4, 5):
			s.p(";")
		default:
			return
		}
		empty()
	}
}

func (s *speller) stmt(st *Stmt) {
	switch st.Kind {
	case Assign:
		s.expr(st.L)
		s.tok("eq", "=")
		s.expr(st.E)
	case CallSt:
		s.expr(st.E)
	case If:
		for i, c := range st.Conds {
			if i == 0 {
				s.kw("if")
			} else {
				s.kw("elseif")
			}
			s.expr(c)
			s.kw("then")
			s.block(st.Blocks[i])
		}
		if len(st.Else) > 0 || s.g != nil && s.g.P(1, 8) {
			s.kw("else")
			s.block(st.Else)
		}
		s.kw("endif")
	case ForEach:
		s.kw("for")
		s.kw("each")
		s.id(st.Name)
		s.kw("in")
		s.expr(st.E)
		s.loop(st)
	case For:
		s.kw("for")
		s.id(st.Name)
		s.tok("eq", "=")
		s.expr(st.E)
		s.kw("to")
		s.expr(st.E2)
		s.loop(st)
	case While:
		s.kw("while")
		s.expr(st.E)
		s.loop(st)
	case Try:
		s.kw("try")
		s.block(st.Blocks[0])
		s.kw("catch")
		s.block(st.Blocks[1])
		s.kw("endtry")
	case Throw:
		s.kw("throw")
		if len(st.Args) == 1 {
			s.expr(st.Args[0])
		} else if len(st.Args) > 1 {
			s.args(st.Args)
		}
	case Return:
		s.kw("return")
		if st.E != nil {
			s.expr(st.E)
		}
	case Break:
		s.kw("break")
	case Continue:
		s.kw("continue")
	case Goto:
		s.kw("goto")
		s.tok("label", "~"+st.Name)
	case Label:
		s.tok("label", "~"+st.Name)
	case Exec:
		s.tok("exec", st.Name)
		if st.Form == 0 {
			s.p("(")
			s.expr(st.E)
			s.p(")")
		} else {
			s.expr(st.E)
		}
	}
}

func (s *speller) loop(st *Stmt) {
	s.kw("loop")
	s.block(st.Blocks[0])
	s.kw("endloop")
}

func (s *speller) args(as []*Expr) {
	s.p("(")
	for i, a := range as {
		if i > 0 {
			s.p(",")
		}
		if a != nil {
			s.expr(a)
		}
	}
	s.p(")")
}

var opTok = func() map[string]string {
	m := map[string]string{}
	for k, t := range OpText {
		m[t] = k
	}
	return m
}()

func (s *speller) expr(e *Expr) {
	switch e.Kind {
	case Num:
		s.tok("num", e.Text)
	case Str:
		s.tok("str", e.Src)
	case Date:
		s.tok("date", e.Src)
	case Bool:
		if e.B {
			s.kw("true")
		} else {
			s.kw("false")
		}
	case Undef:
		s.kw("undef")
	case Neg:
		s.p("-")
		s.expr(e.L)
	case Plus:
		s.p("+")
		s.expr(e.L)
	case Not:
		s.kw("not")
		s.expr(e.L)
	case Bin:
		s.expr(e.L)
		k := opTok[e.Text]
		if k == "and" || k == "or" {
			s.kw(k)
		} else {
			s.tok(k, e.Text)
		}
		s.expr(e.R)
	case Paren:
		if len(e.Args) > 0 {
			s.args(e.Args)
		} else {
			s.p("(")
			s.expr(e.L)
			s.p(")")
		}
	case Tern:
		s.p("?", "(")
		s.expr(e.C)
		s.p(",")
		s.expr(e.L)
		s.p(",")
		s.expr(e.R)
		s.p(")")
	case New:
		s.kw("new")
		if e.Text != "" {
			s.id(e.Text)
		}
		if e.Par {
			s.args(e.Args)
		}
	case Chain:
		for i, l := range e.Links {
			if i > 0 {
				s.p(".")
			}
			s.id(l.Name)
			if l.Call {
				s.args(l.Args)
			}
			for _, x := range l.Idx {
				s.p("[")
				s.expr(x)
				s.p("]")
			}
		}
	}
}

// ---- layout ----

func wordEnd(t Tok) bool {
	switch t.Kind {
	case "id", "num", "dir", "label":
		return true
	}
	_, kw := KwText[t.Kind]
	return kw
}

func wordStart(t Tok) bool {
	switch t.Kind {
	case "id", "num":
		return true
	}
	_, kw := KwText[t.Kind]
	return kw
}

// sep tells what must stand between two tokens: 0 nothing, 1 anything, 2 a comment.
func sep(a, b Tok) int {
	switch {
	case (a.Kind == "str" || a.Kind == "date") && b.Kind == "str":
		return 2
	case wordEnd(a) && wordStart(b):
		return 1
	case a.Kind == "num" && b.Kind == ".":
		return 1
	case a.Kind == "<" && (b.Kind == ">" || b.Kind == "eq" || b.Kind == "ge"),
		a.Kind == ">" && b.Kind == "eq",
		a.Kind == "/" && b.Kind == "/":
		return 1
	}
	return 0
}

var spaces = []string{" ", " ", "  ", "\t", "\n", "\n", "\r\n", "\n\n", " \n\t", "\r"}
var commentText = []string{"", " ", "комментарий", "Если а Тогда", `"`, `"не строка`, "'", "//", "/", "#Область", "| текст", "КонецПроцедуры", ";", "&НаКлиенте", "~м:", "é名😀", "*/", "@!$", "\xff\xd0", "\ufffd", "\x00", "\ufeff", "\r", "\u2028", "C:\\путь\\", "\\", "/*", "{{", "$(", "область #", "end\\n"}
var regionText = []string{"#Область Имя", "#КонецОбласти", "#Если Сервер Тогда", "#Если Не ВебКлиент И Клиент Тогда", "#Иначе", "#КонецЕсли", "#", "##", "#Вставка // x", `#Область "`, "#!", "#Область a\\", `#Если "а`, "#Область '", "#Область (", "#Область /*", "#Удаление", "#КонецУдаления", "# Область", "#область 1;"}

// Layout joins tokens into a text. style: 0 plain, 1 as tight as possible, 2 free layout
// with comments and # lines, 3 one token per line. It fills in Off and End.
func Layout(toks []Tok, g *drv.G, style int) (string, []Tok) {
	out := append([]Tok(nil), toks...)
	var b strings.Builder
	huge := -1 // the gap that is much longer than the others
	dict := 0
	if style == 2 && len(DictInts) > 0 && g.P(1, 10) {
		dict, _ = DictSize(g, 0)
	}
	if style == 2 && g.P(1, 150) || dict > 0 {
		huge = g.N(len(out) + 1)
	}
	at := 0
	// align: a token begins at, or crosses, an offset that is a multiple of alignTo, in bytes or
	// in characters (read in pieces, a text is cut there)
	align, alignTo := -1, 0
	if style == 2 && (g.P(1, 20) || len(DictInts) > 0 && g.P(1, 6)) {
		align, alignTo = g.N(len(out)+1), drv.Pick(g, []int{16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096})
		if len(DictInts) > 0 && g.P(2, 3) {
			alignTo, _ = DictSize(g, 0)
		}
	}
	nl := "\n"
	if style == 2 && g.P(1, 5) {
		nl = "\r\n"
	}
	gap := func(must int, afterSlash, first, last bool) {
		switch style {
		case 0, 1:
			switch {
			case must == 2:
				b.WriteString(" //" + nl)
			case must == 1:
				b.WriteString(" ")
			case style == 0 && !first && !last:
				b.WriteString(" ")
			}
			return
		case 3:
			if must == 2 {
				b.WriteString(" //")
			}
			if !first {
				b.WriteString(nl)
			}
			return
		}
		n := 0
		switch g.W(6, 3, 1) {
		case 1:
			n = 1
		case 2:
			n = g.R(2, 4)
		}
		if n == 0 && must == 0 {
			return
		}
		had := false
		if at == huge {
			k := g.R(100, 1000)
			if g.P(1, 8) {
				k = g.R(1000, 70000)
				if g.B() {
					k = g.R(65500, 70000)
				}
			}
			if dict > 0 {
				k = dict
			}
			b.WriteString(" ")
			switch piece := drv.Pick(g, []string{" ", "\n", "\t", "\r\n", " //\n", "я", "к ", "\n//", "\n#Область", "\""}); {
			case strings.ContainsAny(piece, "/#"):
				k = min(k, 3000)
				b.WriteString(strings.Repeat(piece, k) + nl)
			case strings.TrimSpace(piece) == "":
				b.WriteString(strings.Repeat(piece, k))
			default:
				b.WriteString("//" + strings.Repeat(piece, k) + nl)
			}
		}
		if n == 0 || afterSlash {
			b.WriteString(" ")
			had = true
		}
		for i := 0; i < n; i++ {
			k := g.W(6, 2, 1)
			if must == 2 && i == 0 {
				k = 1
			}
			switch k {
			case 0:
				b.WriteString(drv.Pick(g, spaces))
				had = true
			case 1:
				b.WriteString("//" + drv.Pick(g, commentText) + nl)
				had = true
			case 2:
				b.WriteString(nl)
				if g.B() {
					b.WriteString("  ")
				}
				b.WriteString(drv.Pick(g, regionText) + nl)
				had = true
			}
		}
		if must == 2 && n == 0 {
			b.WriteString("//" + nl)
		}
		if at == align && alignTo > 1 && alignTo <= 70000 {
			pos, in := b.Len(), 0
			if g.P(1, 3) {
				pos = utf8.RuneCountInString(b.String())
			}
			if at < len(out) {
				in = g.N(min(len(out[at].Text), 6) + 1)
			}
			k := (2*alignTo - (pos+in)%alignTo) % alignTo
			b.WriteString(strings.Repeat(drv.Pick(g, []string{" ", " ", "\n", "\t"}), k))
			had = had || k > 0
		}
		if must == 1 && !had {
			b.WriteString(" ")
		}
	}
	for i := range out {
		at = i
		if i == 0 {
			gap(0, false, true, false)
		} else {
			gap(sep(out[i-1], out[i]), out[i-1].Kind == "/", false, false)
			if style == 0 && (out[i-1].Kind == ";" || out[i-1].Kind == "then" || out[i-1].Kind == "loop" || out[i-1].Kind == "try" || out[i-1].Kind == "catch" || out[i-1].Kind == "else" || out[i-1].Kind == "endproc" || out[i-1].Kind == "endfunc" || out[i-1].Kind == "dir") {
				b.WriteString(nl)
			}
		}
		out[i].Off = b.Len()
		b.WriteString(out[i].Text)
		out[i].End = b.Len()
	}
	at = len(out)
	if len(out) > 0 {
		gap(0, out[len(out)-1].Kind == "/", false, true)
		if style == 2 && g.P(1, 12) {
			b.WriteString(" // последний комментарий")
		}
	}
	return b.String(), out
}
