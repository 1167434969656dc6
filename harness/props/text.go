package main

import (
	"fmt"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C01: any text at all.

var oddBits = []string{
	"\"", "'", "\n", "\r", "|", "//", "#", "&", "~", ".", "..", "\x00", "\xff", "\xd0", "\xc3\x28", "\xe2\x82", "😀", "1", "1.", "1.1.1",
	"Если", "Тогда", "КонецЕсли", "Для", "Каждого", "Из", "По", "Цикл", "КонецЦикла", "Попытка", "Исключение", "КонецПопытки", "ВызватьИсключение",
	"Процедура", "Функция", "КонецПроцедуры", "КонецФункции", "Перем", "Экспорт", "Знач", "Новый", "Выполнить", "Перейти", "Возврат", "Прервать",
	"(", ")", "[", "]", "?", "?(", ",", ";", ":", "<", ">", "=", "<>", "+", "-", "*", "/", "%", "Не", "И", "Или", "Истина", "Неопределено", "а", "'20240101'", "\"а", "\"\"", "\n|",
}

func genText(g *drv.G) *drv.Case {
	kind := []string{"edited program", "tokens", "bytes", "nesting", "runs", "edited tokens"}[g.W(6, 4, 2, 1, 1, 3)]
	var src string
	switch kind {
	case "bytes":
		n := g.R(0, 80)
		b := make([]byte, n)
		for i := range b {
			switch g.N(3) {
			case 0:
				b[i] = byte(g.N(256))
			case 1:
				b[i] = byte(g.R(9, 126))
			default:
				b[i] = drv.Pick(g, []byte("\"'/\n|#&~.;:()[]<>=-+\xd0\xd1\x80\xbf 1"))
			}
		}
		src = string(b)
	case "tokens":
		var b strings.Builder
		tight := g.P(1, 3)
		for i := g.R(1, 50); i > 0; i-- {
			if len(lang.DictWords) > 0 && g.P(1, 8) {
				b.WriteString(drv.Pick(g, lang.DictWords))
			} else if g.P(1, 6) {
				b.WriteString(drv.Pick(g, oddBits))
			} else {
				b.WriteString(lang.RandTok(g).Text)
			}
			if !tight || g.P(1, 3) {
				b.WriteString(drv.Pick(g, []string{" ", "\n", "\t", " //к\n", "\n#р\n", "\r\n"}))
			}
		}
		src = b.String()
	case "edited tokens":
		src = mutated(g, nil)
	case "edited program":
		src, _ = genSource(g, func(x *lang.Gen) { x.Stmts = g.R(1, 9); x.Exprs = g.R(1, 40) })
		for i := g.R(1, 4); i > 0; i-- {
			n := len(src)
			a := g.N(n + 1)
			b := min(n, a+g.Geo(3, 4, 20))
			switch g.N(6) {
			case 0:
				src = src[:a]
			case 1:
				src = src[:a] + src[b:]
			case 2:
				src = src[:b] + src[a:]
			case 3:
				src = src[:a] + drv.Pick(g, oddBits) + src[a:]
			case 4:
				src = src[:a] + drv.Pick(g, oddBits) + src[b:]
			case 5:
				src = src[a:]
			}
		}
	case "nesting":
		type nest struct {
			open, close string
			max         int
		}
		ns := []nest{{"(", ")", 1500}, {"а[", "]", 1500}, {"ф(", ")", 1500}, {"?(а,б,", ")", 1500}, {"Новый (", ")", 1500}, {"-", "", 1500}, {"Не ", "", 1500}, {"а.", "", 3000}, {"а+", "", 3000}, {"а И ", "", 3000},
			{"Если а Тогда ", " КонецЕсли;", 250}, {"Пока а Цикл ", " КонецЦикла;", 250}, {"Попытка ", " Исключение КонецПопытки;", 250}, {"Попытка Исключение ", " КонецПопытки;", 250}, {"Для а=1 По 2 Цикл ", " КонецЦикла;", 250}, {"Если а Тогда Иначе ", " КонецЕсли;", 250},
			{"Если а Тогда ИначеЕсли б Тогда ", " КонецЕсли;", 250}, {";", "", 3000}, {"ф(,", ")", 1500}, {"~м:", "", 3000}}
		x := drv.Pick(g, ns)
		n := g.R(1, x.max)
		if g.B() {
			n = g.R(1, 40)
		}
		if k, ok := lang.DictSize(g, x.max); ok && g.B() {
			n = max(k, 1)
		}
		m := n
		if g.P(1, 3) {
			m = g.N(n + 1)
		}
		expr := !strings.Contains(x.close, ";") && x.open != ";" && x.open != "~м:"
		src = strings.Repeat(x.open, n) + "а" + strings.Repeat(x.close, m)
		if expr {
			src = drv.Pick(g, []string{"а = ", "Если ", "Возврат ", "ф = -"}) + src
		}
		if g.B() {
			src = "Функция ф()\n" + src + "\nКонецФункции"
		}
	case "runs":
		line := drv.Pick(g, []string{"// к\n", "#Область\n", "//\n#\n", "//\n//\n  #\n", "\n", "\r\n", " ", "#/\n/", "/", "//", "#", "\"а\"\n", "\"\n|", "|\n", "'", "\"", "&НаКлиенте\n", "я", "9", ".", "1.", "\xd0", "~", "ф(", ",", "-"})
		n := g.R(1, 4000)
		if g.P(1, 8) {
			n = g.R(4000, 30000)
		}
		if k, ok := lang.DictSize(g, 30000); ok && g.B() {
			n = max(k, 1)
		}
		src = drv.Pick(g, []string{"", "а = ", "а = \"", "ф(", "Перем "}) + strings.Repeat(line, n) + drv.Pick(g, []string{"", "а = 1", "\"", ";", ")"})
	}
	return &drv.Case{Kind: kind, Src: drv.Txt(src), Ints: []int{drv.Pick(g, []int{0, 1, 4, 7, 13})}}
}

// repeats are shapes that are repeated very often: text before, opening, middle, closing, behind.
var repeats = [][5]string{
	{"а = ", "(", "1", ")"}, {"", "а[", "1", "]", " = 1"}, {"", "ф(", "", ")"}, {"а = ", "?(а, б, ", "1", ")"}, {"а = ", "Новый Массив(", "", ")"},
	{"а = ", "-(", "1", ")"}, {"а = ", "Не ", "1"}, {"", "а.", "б", "", "()"}, {"а = ", "а + ", "1"}, {"а = ", "а И ", "1"}, {"а = ", "а < (", "1", ")"},
	{"", "Если а Тогда ", "", " КонецЕсли;"}, {"", "Пока а Цикл ", "Прервать;", " КонецЦикла;"}, {"", "Попытка ", "", " Исключение КонецПопытки;"},
	{"", "Попытка Исключение ", "ВызватьИсключение;", " КонецПопытки;"}, {"", "Если а Тогда Иначе ", "", " КонецЕсли;"},
	{"", "Если а Тогда ИначеЕсли б Тогда ", "", " КонецЕсли;"}, {"Функция ф() ", "Для Каждого а Из б Цикл ", "Возврат 1;", " КонецЦикла;", "КонецФункции"},
	// unbalanced and unending
	{"а = ", "(", ""}, {"", "Если а Тогда ", ""}, {"", "ф(", "", "", ";"}, {"а = 1", ")", ""}, {"", "Попытка ", "Исключение"}, {"", "а[", ""}, {"", "ф(а", ""}, {"", "КонецЕсли;", ""},
}

var repeatLists = [][5]string{
	{"", "// к\n", "а = 1;"}, {"", "#Область\n", "а = 1;"}, {"", "//\n#\n", ""}, {"", "\n", "а = 1;"}, {"", "а = 1;\n", ""}, {"", ";", ""}, {"", "ф();", ""}, {"", "~м:", ""},
	{"Если а Тогда ", "ИначеЕсли б Тогда ", "КонецЕсли;"}, {"а = \"", "\n|б", "\";"}, {"а = \"", "\n//к\n|б", "\";"}, {"а = ", "\"а\" ", ";"}, {"а = \"", "\"\"", "\";"}, {"а = '", "1", "';"},
	{"ф(", "1,", "1);"}, {"ф(", ",", ");"}, {"Процедура п(", "а,", "а) КонецПроцедуры"}, {"", "Процедура п() КонецПроцедуры\n", ""},
	{"а = ", "1", ";"}, {"", "я", " = 1;"}, {"", "&НаКлиенте ", "Процедура п() КонецПроцедуры"}, {"а = 1 //", "к", "\n;"}, {"а = \"", "я", ""}, {"", "~", ""}, {"", "1.", ""},
}

func fixedRepeats() (out []*drv.Case) {
	add := func(rs [][5]string, n int) {
		for _, r := range rs {
			c := &drv.Case{Kind: "repeat", Ints: []int{n}}
			for _, p := range r {
				c.Parts = append(c.Parts, drv.Txt(p))
			}
			out = append(out, c)
		}
	}
	add(repeats, 20000)
	add(repeatLists, 100000)
	return out
}

// runRepeat parses, exports and walks one shape repeated Ints[0] times. Printing is left out:
// its cost grows with the square of the nesting.
func runRepeat(c *drv.Case, x *drv.Ctx) error {
	n := c.Ints[0]
	src := string(c.Parts[0]) + strings.Repeat(string(c.Parts[1]), n) + string(c.Parts[2]) + strings.Repeat(string(c.Parts[3]), n) + string(c.Parts[4])
	a := ast.NewAST(src)
	x.Class(fmt.Sprintf("repeated %d times, accepted %v", n, a.Parse() == nil))
	a.JSON()
	k := 0
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { k++ })
	x.NonTrivial(fmt.Sprint(c.Ints, c.Parts))
	return nil
}

func init() {
	reg(&drv.Check{
		ID:    "C01",
		Rule:  "random bytes, token soups, edited and truncated programs, deep nesting and long runs; parse, export, print in four configurations and walk, each within a time and memory limit and without a panic; non-trivial: at least 3 tokens before the end or the first fault",
		Quick: 150000, Thorough: 3300000,
		Gen:         genText,
		Fixed:       fixedRepeats,
		Assumptions: []string{"random nesting of blocks up to 250 and of expressions up to 3000, random texts up to about 500 KB; fixed ones (parsed, exported and walked) up to 20000 levels and 100000 parts"},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			if c.Kind == "repeat" {
				return runRepeat(c, x)
			}
			src := string(c.Src)
			a := ast.NewAST(src)
			err := a.Parse()
			toks, le := lang.Lex(src)
			switch {
			case err == nil:
				x.Class(c.Kind + ": accepted")
			case le != nil:
				x.Class(c.Kind + ": lexical fault")
			default:
				x.Class(c.Kind + ": syntax")
			}
			if len(toks) >= 3 {
				x.NonTrivial(src)
			}
			m := &a.ModuleStatement
			if len(m.Body) > 0 && err != nil {
				x.Class("tree behind an error")
			}
			a.JSON()
			margin := 4
			if len(c.Ints) > 0 {
				margin = c.Ints[0]
			}
			for _, conf := range []ast.PrintConf{{}, {Margin: margin}, {OneLine: true}, {OneLine: true, Margin: margin}} {
				a.Print(conf)
			}
			n := 0
			m.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { n++ })
			for _, s := range m.Body {
				a.PrintStatement(s)
			}
			_ = n
			return nil
		},
	})
	reg(&drv.Check{
		ID:    "C07",
		Rule:  "two renderings of one token sequence (well-formed or mutated) that differ in whitespace, comments and # lines, or in the letter case of keywords and directives; acceptance, tree, JSON and printed text must agree; non-trivial: at least 5 tokens and different texts",
		Quick: 300000, Thorough: 6600000,
		Fixed: both(bigPairs, countedPairs),
		Gen: func(g *drv.G) *drv.Case {
			x := lang.NewGen(g)
			x.Exprs = g.R(2, 60)
			toks := lang.ModuleToks(x.Module(), g)
			if g.P(1, 4) {
				toks = lang.Mutate(g, toks)
			}
			a, _ := lang.Layout(toks, g, g.W(2, 2, 4, 1))
			kind := "layout"
			other := append([]lang.Tok(nil), toks...)
			lexed, le := lang.Lex(a)
			if g.P(1, 3) && le == nil && len(lexed) == len(other) {
				// what counts as a keyword is decided by the text: a word behind a dot is a name
				kind = "case"
				for i, t := range lexed {
					_, kw := lang.KwText[t.Kind]
					if kw || t.Kind == "dir" {
						other[i].Text = lang.Recase(g, t.Text)
					}
				}
			}
			b, _ := lang.Layout(other, g, g.W(1, 2, 5, 1))
			return &drv.Case{Kind: kind, Src: drv.Txt(a), Src2: drv.Txt(b)}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			s1, s2 := string(c.Src), string(c.Src2)
			t1, e1 := lang.Lex(s1)
			t2, e2 := lang.Lex(s2)
			if (e1 == nil) != (e2 == nil) || len(t1) != len(t2) {
				return broken("the renderings have different tokens: %v %v", e1, e2)
			}
			for i := range t1 {
				_, kw := lang.KwText[t1[i].Kind]
				cased := c.Kind == "case" && (kw || t1[i].Kind == "dir")
				if t1[i].Kind != t2[i].Kind || t1[i].Text != t2[i].Text && !(cased && lang.Lower(t1[i].Text) == lang.Lower(t2[i].Text)) {
					return broken("the renderings differ in token %d", i)
				}
			}
			a1, err1 := parse(s1)
			a2, err2 := parse(s2)
			if (err1 == nil) != (err2 == nil) {
				return fmt.Errorf("one rendering is accepted and the other is not:\n  %v\n  %v", err1, err2)
			}
			ok := "rejected"
			if err1 == nil {
				ok = "accepted"
			}
			x.Class(c.Kind + " " + ok)
			if len(t1) >= 5 && s1 != s2 {
				x.NonTrivial(s1 + "\x00" + s2)
			}
			if err1 != nil {
				return nil
			}
			d1, d2 := DumpTree(&a1.ModuleStatement), DumpTree(&a2.ModuleStatement)
			p1, p2 := a1.Print(ast.PrintConf{Margin: 2}), a2.Print(ast.PrintConf{Margin: 2})
			if c.Kind == "case" {
				d1, d2 = lowerDirs(d1), lowerDirs(d2)
				p1, p2 = lowerCased(p1), lowerCased(p2)
			}
			if d1 != d2 {
				return fmt.Errorf("the trees of the renderings differ, %s", firstDiff(d1, d2))
			}
			if p1 != p2 {
				return fmt.Errorf("the printed texts of the renderings differ, %s", firstDiff(p1, p2))
			}
			if c.Kind == "layout" {
				j1, _ := a1.JSON()
				j2, _ := a2.JSON()
				if string(j1) != string(j2) {
					return fmt.Errorf("the JSON of the renderings differs:\n%s\n%s", j1, j2)
				}
			}
			return nil
		},
	})
}

// lowerDirs hides the letter case of directives in a canonical text.
func lowerDirs(d string) string {
	ls := strings.Split(d, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, " ") {
			continue
		}
		a := strings.Index(l, `dir="`)
		if a < 0 {
			continue
		}
		if b := strings.Index(l[a+5:], `"`); b >= 0 {
			ls[i] = l[:a] + lang.Lower(l[a:a+5+b]) + l[a+5+b:]
		}
	}
	return strings.Join(ls, "\n")
}

// lowerCased hides the letter case of keywords and directives in a source text.
func lowerCased(src string) string {
	toks, le := lang.Lex(src)
	if le != nil { // the parser takes some texts that are no modules and prints them as it can
		return lang.Lower(src)
	}
	var b strings.Builder
	at := 0
	for _, t := range toks {
		b.WriteString(src[at:t.Off])
		_, kw := lang.KwText[t.Kind]
		if kw || t.Kind == "dir" {
			b.WriteString(lang.Lower(t.Text))
		} else {
			b.WriteString(t.Text)
		}
		at = t.End
	}
	b.WriteString(src[at:])
	return b.String()
}
