package main

import (
	"strconv"
	"strings"
	"sync"

	"verif/harness/drv"
	"verif/harness/lang"
)

// Some texts are much longer than what is drawn at random: one comment, gap, region, string or
// name in them fills more than a quarter of a megabyte, or more than a megabyte.

const bigFront = "Перем г;\nПроцедура п(а) Экспорт\n\tа = 1;\n"

var bigGaps = [][3]string{
	{"//", "к", "\n"}, {"", "//к\n", ""}, {"", " ", ""}, {"", "\n", ""}, {"", "\t\r\n", ""}, {"#Область ", "О", "\n"}, {"", "#Если А Тогда\n", ""},
	{"с = \"", "я", "\";"}, {"с = \"", "x\"\"", "\";"}, {"с = \"", "\n\t|стр", "\";"}, {"с = \"", "\n//к", "\n|\" + 1;"},
	{"", "ж", " = 1;"}, {"", "W", "();"}, {"о.", "я", "(1);"}, {"", ";", ""},
}

var bigEnds = map[string]string{
	"good":    "\nЕсли а > 2 Тогда\n\tб = -а + 2.5;\nИначе\n\tв(1, \"х\", '20240102');\nКонецЕсли;\nКонецПроцедуры\nд = Не 3;\n",
	"bad":     "\n\tа = ;\nКонецПроцедуры\n",
	"glued":   "\n\tа = 12б;\nКонецПроцедуры\n",
	"foreign": "\n\tа = 12; @\nКонецПроцедуры\n",
	"break":   "\n\tПрервать;\nКонецПроцедуры\n",
	"value":   "\n\tВозврат 5;\nКонецПроцедуры\n",
}

// big makes the fixed cases with huge texts; short of them where the work on each is long.
func big(end string, gaps int, kind string, ints ...int) func() []*drv.Case {
	return func() (out []*drv.Case) {
		// of the sizes in the source only a few, each above 200000
		sizes := []int{300000, 1<<20 + 1<<12}
		for i := len(lang.DictBig) - 1; i >= 0 && len(sizes) < 6; i-- {
			sizes = append(sizes, lang.DictBig[i]+100)
		}
		for _, n := range sizes {
			for i, f := range bigGaps[:min(gaps, len(bigGaps))] {
				if n > 4<<20 && i%7 != 0 {
					continue
				}
				src := bigFront + f[0]
				at := len(src)
				src += f[2] + bigEnds[end]
				out = append(out, &drv.Case{Kind: kind, Src: drv.Txt(src), Ints: ints, Fill: []drv.Fill{{At: at, N: n/len(f[1]) + 1, Text: drv.Txt(f[1])}}})
			}
		}
		return out
	}
}

func both(fs ...func() []*drv.Case) func() []*drv.Case {
	return func() (out []*drv.Case) {
		for _, f := range fs {
			out = append(out, f()...)
		}
		return out
	}
}

// bigPairs makes pairs of renderings, one of them huge.
func bigPairs() (out []*drv.Case) {
	for _, c := range big("good", 5, "layout")() {
		c.Src2 = drv.Txt(bigFront + bigEnds["good"])
		out = append(out, c)
	}
	return out
}

// Other texts hold a list of each length, or a nest of each depth, up to some tens.

var listStmts = []string{
	"а = б;", "а();", "а.б[1].в(1, \"х\");", "Если а Тогда КонецЕсли;", "Если а Тогда б = 1; ИначеЕсли в Тогда г(); Иначе д(); КонецЕсли;", "Пока а Цикл КонецЦикла;",
	"Для а = 1 По 2 Цикл б(); КонецЦикла;", "Для Каждого а Из б Цикл в = а; КонецЦикла;", "Попытка а(); Исключение б(); КонецПопытки;", "ВызватьИсключение \"а\";",
	"Возврат;", "~м%:", "Перейти ~н;", "а = Новый М(1,, 2);", "а = ?(б, 1, -в);", "а = Не б Или '20240101' > в;", "а = \"б\n|в\";",
	"Прервать;", "Продолжить;",
}

// what a list of statements stands in; the last four may hold a break
var listHomes = [][2]string{
	{"", ""}, {"Процедура п(а)\n", "\nКонецПроцедуры"}, {"Процедура п(а)\nЕсли а Тогда\n", "\nКонецЕсли;\nКонецПроцедуры"},
	{"Процедура п(а)\nЕсли а Тогда\nИначеЕсли б Тогда\n", "\nИначе а(); КонецЕсли;\nКонецПроцедуры"}, {"Процедура п(а)\nЕсли а Тогда\nИначе\n", "\nКонецЕсли;\nКонецПроцедуры"},
	{"Процедура п(а)\nПопытка\n", "\nИсключение\nКонецПопытки;\nКонецПроцедуры"}, {"Процедура п(а)\nПопытка\nИсключение\n", "\nКонецПопытки;\nКонецПроцедуры"},
	{"Процедура п(а)\nПока а Цикл\n", "\nКонецЦикла;\nКонецПроцедуры"}, {"Процедура п(а)\nДля а = 1 По 2 Цикл\n", "\nКонецЦикла;\nКонецПроцедуры"},
	{"Процедура п(а)\nДля Каждого а Из б Цикл\n", "\nКонецЦикла;\nКонецПроцедуры"}, {"Процедура п(а)\nПока а Цикл Если б Тогда\n", "\nКонецЕсли; КонецЦикла;\nКонецПроцедуры"},
}

// front, what repeats (% is its number), what parts two, and the end
var listKinds = [][4]string{
	{"а(", "б", ", ", ");"}, {"а(", "", ",", ");"}, {"а(", "-1", ", ", ");"}, {"а(", "\"б\"", ", ", ");"}, {"а = Новый М(", "б.в(1)", ", ", ");"}, {"а = Новый М(", "", ",", ");"},
	{"Процедура п(", "а%", ", ", ") КонецПроцедуры"}, {"Функция ф(", "Знач а% = -1", ", ", ") Экспорт КонецФункции"}, {"Функция ф(", "а% = \"б\"", ", ", ") Возврат 1; КонецФункции"},
	{"Перем ", "а%", ", ", ";"}, {"Перем ", "а%", ", ", " Экспорт;"}, {"", "Перем а%;", "\n", ""}, {"Процедура п() Перем ", "а%", ", ", "; КонецПроцедуры"}, {"Процедура п() ", "Перем а%;", "\n", " КонецПроцедуры"},
	{"", "Процедура п%() КонецПроцедуры", "\n", ""}, {"", "&НаКлиенте\nФункция ф%(а) Экспорт Возврат а; КонецФункции", "\n\n", "\nа();"}, {"Перем а;\n", "&НаСервере\nПроцедура п%() Перем б; б = 1; КонецПроцедуры", "\n", ""},
	{"Если а Тогда ", "ИначеЕсли б% Тогда в();", "\n", " Иначе г(); КонецЕсли;"}, {"Если а Тогда ", "ИначеЕсли б Тогда", "\n", " КонецЕсли;"},
	{"а = б", "в", ".", ";"}, {"а = б.", "в(1)", ".", ";"}, {"а", "[1]", "", " = 2;"}, {"а", ".б[в]", "", "();"}, {"а = ", "б", " + ", ";"}, {"а = ", "1", " * ", ";"}, {"а = ", "б", " И ", ";"}, {"а = ", "\"б\"", " + ", ";"},
	{"а = ", "Не ", "", "б;"}, {"а = \"", "строка", "\n\t|", "\";"}, {"а = \"", "\"\"", "", "\";"}, {"а = ", "\"б\"", "\n", ";"}, {"а = \"", "", "\n|", "\";"}, {"а = 1", "0", "", ";"}, {"а = 1.", "5", "", ";"}, {"а = б", "ы", "", ";"}, {"а = W", "w", "", "();"},
	{"", "//к", "\n", "\nа = 1;"}, {"а = 1;", " ", "", "б = 2;"}, {"а = 1;", "\n", "", "б = 2;"}, {"а = 1;", ";", "", "б = 2;"}, {"", "#Область О%\n", "", "а = 1;"}, {"а = б //", "к", "", "\n+ 1;"}, {"~м", "а", "", ":\nа = 1;"},
}

var listNests = [][3]string{
	{"а = ", "(", ")"}, {"а = ", "б(", ")"}, {"а = ", "б.в(1, ", ")"}, {"а = ", "?(б, ", ", 2)"}, {"а = ", "?(", ", 1, 2)"}, {"а = ", "б[", "]"}, {"а = ", "Новый М(", ")"}, {"а = ", "1 + (", ")"}, {"а = ", "Не (", ")"},
}

var blockNests = [][2]string{
	{"Если а Тогда ", " КонецЕсли;"}, {"Если а Тогда Иначе ", " КонецЕсли;"}, {"Если а Тогда ИначеЕсли б Тогда ", " КонецЕсли;"}, {"Пока а Цикл ", " КонецЦикла;"}, {"Для а = 1 По 2 Цикл ", " КонецЦикла;"},
	{"Для Каждого а Из б Цикл ", " КонецЦикла;"}, {"Попытка ", " Исключение КонецПопытки;"}, {"Попытка Исключение ", " КонецПопытки;"},
}

func times(n int, what, sep string) string {
	b := strings.Builder{}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(strings.ReplaceAll(what, "%", strconv.Itoa(i)))
	}
	return b.String()
}

var countedTexts = sync.OnceValue(func() (out []string) {
	const far = 36
	for n := 0; n <= far; n++ {
		for h, home := range listHomes {
			for k, s := range listStmts {
				if k >= len(listStmts)-2 && h < len(listHomes)-4 {
					continue
				}
				if h == 0 && s == "Возврат;" {
					continue
				}
				out = append(out, home[0]+times(n, s, "\n")+home[1])
			}
		}
		for _, l := range listKinds {
			out = append(out, l[0]+times(n, l[1], l[2])+l[3], "х = 1;\n"+l[0]+times(n+far, l[1], l[2])+l[3])
		}
		for _, l := range listNests {
			out = append(out, l[0]+strings.Repeat(l[1], n)+"1"+strings.Repeat(l[2], n)+";")
		}
		for _, l := range blockNests {
			out = append(out, "Процедура п()\n"+strings.Repeat(l[0], n)+"а = 1; б(2);"+strings.Repeat(l[1], n)+"\nКонецПроцедуры")
		}
	}
	kept := out[:0]
	for _, s := range out {
		toks, le := lang.Lex(s)
		if le != nil {
			continue
		}
		if m, err := lang.ReadToks(toks); err == nil && len(lang.Context(m)) == 0 {
			kept = append(kept, s)
		}
	}
	return kept
})

// counted makes a fixed case of each such text.
func counted(kind string, ints ...int) func() []*drv.Case {
	return func() (out []*drv.Case) {
		for _, s := range countedTexts() {
			out = append(out, &drv.Case{Kind: kind, Src: drv.Txt(s), Ints: ints})
		}
		return out
	}
}

// countedBad ends each such text with something that must be rejected.
func countedBad(kind string, ends ...string) func() []*drv.Case {
	return func() (out []*drv.Case) {
		for i, s := range countedTexts() {
			out = append(out, &drv.Case{Kind: kind, Src: drv.Txt(s + "\n" + ends[i%len(ends)])})
		}
		return out
	}
}

// countedPairs pairs each with a text of other gaps.
func countedPairs() (out []*drv.Case) {
	for _, s := range countedTexts() {
		toks, _ := lang.Lex(s)
		b, at := strings.Builder{}, 0
		for _, t := range toks {
			if t.Off > at {
				b.WriteString("\n\t//к\r\n ")
			}
			b.WriteString(s[t.Off:t.End])
			at = t.End
		}
		out = append(out, &drv.Case{Kind: "layout", Src: drv.Txt(s), Src2: drv.Txt(b.String())})
	}
	return out
}
