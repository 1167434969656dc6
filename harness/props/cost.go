package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C23: a source eight times as long costs about eight times as much.

// costShapes are lists that can be made any length: text before, the part (# is its number),
// text behind, and what to measure (p: printing too).
var costShapes = [][4]string{
	{"", "Перем имя#;\n", "", "p"}, {"Перем и", ", имя#", ";", "p"}, {"Процедура п() ", "Перем имя#;", "КонецПроцедуры", "p"}, {"Процедура п() Перем и", ", имя#", "; КонецПроцедуры", "p"},
	{"Процедура п(и", ", Знач имя# = 1", ") КонецПроцедуры", "p"}, {"Функция ф(и", ", имя#", ") КонецФункции", "p"},
	{"ф(1", ", имя#", ");", "p"}, {"ф(", ",", ");", "p"}, {"а = Новый Массив(1", ", \"х#\"", ");", "p"}, {"ВызватьИсключение (1", ", а#", ");", "p"},
	{"", "~м#:", "", "p"}, {"", "Перейти ~м#;", "", "p"}, {"", ";", "", ""}, {"", "имя#();", "", "p"},
	{"Если а Тогда ", "ИначеЕсли б# Тогда в#();", " Иначе г(); КонецЕсли;", "p"},
	{"а = \"", "\n|строка #", "\";", "p"}, {"а = \"", "\n// к #\n|строка #", "\";", "p"}, {"а = ", "\"часть #\"\n", ";", "p"}, {"а = \"", "\"\"", "\";", "p"}, {"а = \"", "текст ", "\";", "p"},
	{"", "// комментарий #\n", "а = 1;", "p"}, {"", "#Область о#\n", "а = 1;", "p"}, {"а = 1 ", "//\n#\n", ";", "p"}, {"а = 1 ", "\n \t", ";", "p"}, {"а = 1; //", "к", "", "p"},
	{"", "имя", " = 1;", "p"}, {"а = '20240101", "-", "';", "p"}, {"а = '", "0", "';", ""}, {"а = 0.", "1", ";", ""},
	{"а = 1", " + б#", ";", ""}, {"а = 1", " И б#", ";", ""}, {"а = 1", " > (б#)", ";", ""}, {"а", ".б#", "();", ""}, {"а", ".б#(1)", ";", ""}, {"а", "[#]", " = 1;", ""}, {"а = ", "Не ", "б;", ""},
	{"", "Процедура п#() Экспорт а = #; КонецПроцедуры\n", "", "p"}, {"", "&НаСервере\nФункция ф#() Возврат #; КонецФункции\n", "", "p"},
	{"", "Если а Тогда б = #; КонецЕсли;", "", "p"}, {"", "Пока а Цикл Прервать; КонецЦикла;", "", "p"}, {"", "Попытка а#(); Исключение ВызватьИсключение; КонецПопытки;", "", "p"}, {"", "Для Каждого а Из б# Цикл Продолжить; КонецЦикла;", "", "p"},
	{"а = ", "(", "1", ""}, {"а = ", "?(а, 1, ", "1", ""}, {"", "Если а Тогда ", "", ""}, {"", "ф(", "", ""}, {"", "Попытка Исключение ", "", ""}, // these are faulty, and found out at the end
}

func threadCPU() time.Duration {
	var t syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&t)), 0) // CLOCK_THREAD_CPUTIME_ID
	return time.Duration(t.Nano())
}

type cost struct {
	cpu   time.Duration
	bytes uint64
}

func measure(f func()) cost {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t := threadCPU()
	f()
	t = threadCPU() - t
	runtime.ReadMemStats(&b)
	return cost{t, b.TotalAlloc - a.TotalAlloc}
}

// costSrc repeats the part n times.
func costSrc(c *drv.Case, n int) string {
	var b strings.Builder
	b.WriteString(string(c.Parts[0]))
	mid := c.Parts[1 : len(c.Parts)-1]
	for i := 0; i < n; i++ {
		p := string(mid[i%len(mid)])
		if c.Kind == "shape" {
			p = strings.ReplaceAll(p, "#", fmt.Sprint(i))
		}
		b.WriteString(p)
	}
	b.WriteString(string(c.Parts[len(c.Parts)-1]))
	return b.String()
}

var stages = []string{"parsing", "exporting", "walking", "printing", "printing in one line", "printing statements alone"}

// stageCosts measures everything one source is put through.
func stageCosts(src string, print bool) ([]cost, error) {
	a := ast.NewAST(src)
	var err error
	out := []cost{measure(func() { err = a.Parse() })}
	if err != nil {
		return out, err
	}
	n := 0
	fs := []func(){
		func() { a.JSON() },
		func() { a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { n++ }) },
	}
	if print {
		fs = append(fs,
			func() { a.Print(ast.PrintConf{Margin: 2}) },
			func() { a.Print(ast.PrintConf{OneLine: true}) },
			func() {
				for _, s := range a.ModuleStatement.Body {
					a.PrintStatement(s)
				}
			})
	}
	for _, f := range fs {
		out = append(out, measure(f))
	}
	return out, nil
}

const (
	costTimes = 8  // so many times longer is the long source
	costLimit = 30 // times as much it may cost (8 is linear, 64 quadratic)
)

func genCost(g *drv.G) *drv.Case {
	c := &drv.Case{Ints: []int{0, 1}}
	if g.P(1, 2) {
		s := drv.Pick(g, costShapes)
		c.Kind = "shape"
		c.Parts = []drv.Txt{drv.Txt(s[0]), drv.Txt(s[1]), drv.Txt(s[2])}
		if s[3] == "" {
			c.Ints[1] = 0
		}
	} else {
		c.Kind = "random"
		x := lang.NewGen(g)
		pre, post := "", ""
		parts := g.R(1, 4)
		what := g.N(5)
		switch what {
		case 1:
			pre, post = "Процедура п()\n", "\nКонецПроцедуры"
		case 2:
			pre, post = "Если а Тогда ", " Иначе б(); КонецЕсли"
		case 3:
			pre, post = "Пока а Цикл ", " КонецЦикла"
		}
		c.Parts = []drv.Txt{drv.Txt(pre)}
		for i := 0; i < parts; i++ {
			x.Stmts, x.Exprs, x.MaxDepth = g.R(1, 4), g.R(2, 25), 3
			var toks []lang.Tok
			if what == 4 {
				toks = lang.RoutineToks(x.Routine(), g)
			} else {
				toks = append(lang.BlockToks([]*lang.Stmt{x.Stmt(0)}, g), lang.Tok{Kind: ";", Text: ";"})
			}
			s, _ := lang.Layout(toks, g, g.N(3))
			c.Parts = append(c.Parts, drv.Txt(s+"\n"))
		}
		if g.P(1, 6) { // the fault stands at the very end
			post += " )"
		}
		c.Parts = append(c.Parts, drv.Txt(post))
	}
	size := 0
	for _, p := range c.Parts[1 : len(c.Parts)-1] {
		size += len(p)
	}
	size = max(1, size/(len(c.Parts)-2))
	c.Ints[0] = min(20000, g.R(15000, 50000)/size+1)
	return c
}

func init() {
	reg(&drv.Check{
		ID:    "C23",
		Rule:  "a list (of statements, declarations, arguments, branches, string lines, comments, operands …; fixed shapes and random parts) of n and of 8n parts, 15 to 50 KB and eight times that; processor time and memory allocated by parsing, exporting, walking and printing the longer one must be less than 30 times those for the shorter one (8 is linear, 64 quadratic) in at least one of up to eight measurements; costs under 10 ms and 4 MB are not compared; non-trivial: some cost was compared",
		Quick: 500, Thorough: 12000, CPUs: 1,
		Assumptions: []string{"processor time of the thread is measured, so a busy machine is no failure"},
		Gen:         genCost,
		Run: func(c *drv.Case, x *drv.Ctx) error {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			n := c.Ints[0]
			short, long := costSrc(c, n), costSrc(c, costTimes*n)
			compared := false
			var worst string
			over := func(a, b []cost) string {
				for i := range b {
					// deep trees are walked recursively; growing the stack costs time of its own
					if b[i].cpu > 10*time.Millisecond && (i == 0 || c.Ints[1] != 0) {
						compared = true
						if b[i].cpu > costLimit*a[i].cpu {
							return fmt.Sprintf("%s takes %v for %d bytes and %v for %d bytes", stages[i], a[i].cpu, len(short), b[i].cpu, len(long))
						}
					}
					if b[i].bytes > 4<<20 && stages[i] != "exporting" { // encoding/json keeps its buffers
						compared = true
						if b[i].bytes > costLimit*a[i].bytes {
							return fmt.Sprintf("%s allocates %d bytes for a source of %d and %d for one of %d", stages[i], a[i].bytes, len(short), b[i].bytes, len(long))
						}
					}
				}
				return ""
			}
			var a, b []cost
			lower := func(old, now []cost) []cost {
				for i := range old {
					now[i] = cost{min(old[i].cpu, now[i].cpu), min(old[i].bytes, now[i].bytes)}
				}
				return now
			}
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
			for try := 0; try < 8; try++ {
				// the longer one first: it pays for fresh memory
				b2, err2 := stageCosts(long, c.Ints[1] != 0)
				a2, err1 := stageCosts(short, c.Ints[1] != 0)
				runtime.GC()
				if (err1 == nil) != (err2 == nil) {
					return fmt.Errorf("%d parts: %v, %d parts: %v", n, err1, costTimes*n, err2)
				}
				a, b = lower(a, a2), lower(b, b2)
				if worst = over(a, b); worst == "" {
					break
				}
				x.Class("measured again")
			}
			if worst != "" {
				return fmt.Errorf("%s", worst)
			}
			x.Class(c.Kind)
			x.Class(sizeClass("parts", costTimes*n))
			if compared {
				x.NonTrivial(short)
			}
			return nil
		},
	})
}
