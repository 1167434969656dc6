package main

import (
	"errors"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"unicode/utf8"

	"verif/harness/drv"
	"verif/harness/lang"
)

// FuzzText looks for texts on which the checks that take any text disagree with the parser, guided
// by coverage (of the parser and of the reference code):
//
//	go test -fuzz FuzzText -parallel 4 -fuzztime 10m ./props
func FuzzText(f *testing.F) {
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_FUZZ_SEEDS"), "*"))
	for _, n := range files {
		if b, err := os.ReadFile(n); err == nil {
			f.Add(string(b))
		}
	}
	f.Add("Процедура п(Знач а, б = 1) Экспорт\nПерем л;\nЕсли а Тогда б(1)[2].в = -1; ИначеЕсли Не а Тогда Возврат; КонецЕсли;\nКонецПроцедуры\n~м:\nДля Каждого ш Из м Цикл Прервать; КонецЦикла;")
	f.Add("&НаКлиенте\nПерем а, б Экспорт;\n#Область А\nФункция ф()\nПопытка ВызватьИсключение \"а\"\n\"б\n|в\"; Исключение ВызватьИсключение; КонецПопытки;\nВозврат ?(а = '20240101', Новый М(1,, 2), Новый(\"А\", б)) + 1.5;\nКонецФункции\nПерейти ~м; Выполнить(\"а\");")
	by := map[string]*drv.Check{}
	for _, c := range checks {
		by[c.ID] = c
	}
	f.Fuzz(func(t *testing.T, s string) {
		if len(s) > 3000 || !utf8.ValidString(s) {
			return
		}
		ids := []string{"C20", "C11", "C30", "C10", "C12"}
		if toks, le := lang.Lex(s); le == nil {
			if m, err := lang.ReadToks(toks); err == nil && len(lang.Context(m)) == 0 && !strings.Contains(lang.DumpModule(m, false), "tuple(") {
				ids = append(ids, "C02", "C13", "C14", "C15", "C17", "C04")
			}
		}
		for _, id := range ids {
			c := &drv.Case{Kind: "shape", Src: drv.Txt(s), Ints: []int{4, 0}}
			if err := by[id].Run(c, drv.NewCtx()); err != nil && !errors.Is(err, drv.Broken) {
				t.Errorf("%s: %v", id, err)
			}
		}
	})
}
