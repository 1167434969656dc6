package main

import (
	"fmt"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C19: parts parsed alone and put together.

type blockWrap struct {
	open, close string
	in          func(s any) (ast.Statements, bool)
}

func ifOf(s any) (ast.IfStatement, bool) { v, ok := deref(s).(ast.IfStatement); return v, ok }

func loopBody(s any) (ast.Statements, bool) {
	v, ok := deref(s).(ast.LoopStatement)
	return v.Body, ok
}

var blockWraps = []blockWrap{
	{"Если а = 1 Тогда", "КонецЕсли", func(s any) (ast.Statements, bool) { v, ok := ifOf(s); return v.TrueBlock, ok }},
	{"Если а Тогда б = 1 Иначе", "КонецЕсли", func(s any) (ast.Statements, bool) { v, ok := ifOf(s); return v.ElseBlock, ok }},
	{"Если а Тогда б = 1; ИначеЕсли Не б Тогда", "ИначеЕсли в Тогда г() КонецЕсли", func(s any) (ast.Statements, bool) {
		v, ok := ifOf(s)
		if !ok || len(v.IfElseBlock) != 2 {
			return nil, false
		}
		e, ok := ifOf(v.IfElseBlock[0])
		return e.TrueBlock, ok
	}},
	{"Если а Тогда ИначеЕсли б Тогда ИначеЕсли -б > 0 Тогда", "Иначе КонецЕсли", func(s any) (ast.Statements, bool) {
		v, ok := ifOf(s)
		if !ok || len(v.IfElseBlock) != 2 {
			return nil, false
		}
		e, ok := ifOf(v.IfElseBlock[1])
		return e.TrueBlock, ok
	}},
	{"Для и1 = 1 По 10 Цикл", "КонецЦикла", loopBody},
	{"Для Каждого т Из Список Цикл", "КонецЦикла", loopBody},
	{"Пока Не а Цикл", "КонецЦикла", loopBody},
	{"Попытка", "Исключение ВызватьИсключение КонецПопытки", func(s any) (ast.Statements, bool) {
		v, ok := deref(s).(ast.TryStatement)
		return v.Body, ok
	}},
	{"Попытка а(); Исключение", "КонецПопытки", func(s any) (ast.Statements, bool) {
		v, ok := deref(s).(ast.TryStatement)
		return v.Catch, ok
	}},
}

type exprWrap struct {
	open, close string
	in          func(s any) (any, bool)
}

func arg(ss ast.Statements, i, n int) (any, bool) {
	if len(ss) != n {
		return nil, false
	}
	return ss[i], true
}

func paren(s any) (any, bool) {
	v, ok := deref(s).(ast.ExprStatements)
	if !ok {
		return nil, false
	}
	return arg(v.Statements, 0, 1)
}

func method(s any) ast.Statements {
	v, _ := deref(s).(ast.MethodStatement)
	return v.Param.Statements
}

func tern(s any) ast.TernaryStatement { v, _ := deref(s).(ast.TernaryStatement); return v }

func bin(s any) ast.ExpStatement { v, _ := deref(s).(ast.ExpStatement); return v }

var exprWraps = []exprWrap{
	{"(", ")", paren},
	{"ф(", ")", func(s any) (any, bool) { return arg(method(s), 0, 1) }},
	{"ф(1,", ",,б)", func(s any) (any, bool) { return arg(method(s), 1, 4) }},
	{"м[", "]", func(s any) (any, bool) { v, ok := deref(s).(ast.ItemStatement); return v.Item, ok }},
	{"?(", ", 1, 2)", func(s any) (any, bool) { v := tern(s); return v.Expression, v.Expression != nil }},
	{"?(а,", ", 2)", func(s any) (any, bool) { v := tern(s); return v.TrueBlock, v.TrueBlock != nil }},
	{"?(а, -1,", ")", func(s any) (any, bool) { v := tern(s); return v.ElseBlock, v.ElseBlock != nil }},
	{"Новый Массив(1,", ")", func(s any) (any, bool) {
		v, _ := deref(s).(ast.NewObjectStatement)
		return arg(v.Param.Statements, 1, 2)
	}},
	{"1 + (", ")", func(s any) (any, bool) { return paren(bin(s).Right) }},
	{"(", ") * б", func(s any) (any, bool) { return paren(bin(s).Left) }},
	{"а И (", ")", func(s any) (any, bool) { return paren(bin(s).Right) }},
	{"о.м(", ")", func(s any) (any, bool) {
		v, _ := deref(s).(ast.CallChainStatement)
		return arg(method(v.Unit), 0, 1)
	}},
}

// alone parses a part by itself.
func alone(src string) (*ast.ModuleStatement, error) {
	a, err := parse(src)
	if err != nil {
		return nil, fmt.Errorf("a part is rejected: %v\n%s", err, src)
	}
	return &a.ModuleStatement, nil
}

func same(what string, want, got ast.Statements) error {
	if len(want) == len(got) {
		for i := range want {
			if !alike(want[i], got[i]) {
				return fmt.Errorf("%s: statement %d differs from the part parsed alone, %s", what, i, treeDiff(Deep(want[i]), Deep(got[i])))
			}
		}
		return nil
	}
	return fmt.Errorf("%s: %d statements in place of the parts' %d", what, len(got), len(want))
}

func runParts(c *drv.Case, x *drv.Ctx) error {
	// Parts: nv declarations, nr routines, the rest statements; Ints: nv, nr, then the order
	nv, nr := c.Ints[0], c.Ints[1]
	var ms []*ast.ModuleStatement
	for _, p := range c.Parts {
		m, err := alone(string(p))
		if err != nil {
			return err
		}
		ms = append(ms, m)
	}
	var b strings.Builder
	var want ast.Statements
	vars := map[string]ast.GlobalVariables{}
	for i := 0; i < nv; i++ {
		b.WriteString(string(c.Parts[i]) + "\n")
		for k, v := range ms[i].GlobalVariables {
			vars[k] = v
		}
	}
	add := func(lo, hi int, sep string) {
		if lo >= hi {
			return
		}
		for _, k := range c.Ints[2:] {
			k = lo + k%(hi-lo)
			b.WriteString(string(c.Parts[k]) + sep)
			want = append(want, ms[k].Body...)
		}
	}
	add(nv, nv+nr, "\n")
	add(nv+nr, len(c.Parts), "\n;\n")
	whole, err := parse(b.String())
	if err != nil {
		return fmt.Errorf("a module put together from %d accepted parts is rejected: %v", len(c.Ints)-2, err)
	}
	if got := whole.GlobalVariables; len(got) != len(vars) || len(vars) > 0 && !alike(got, vars) {
		return fmt.Errorf("the module variables are %v, those of the parts %v", got, vars)
	}
	if err := same("module", want, whole.ModuleStatement.Body); err != nil {
		return err
	}
	x.Class(sizeClass("parts", len(want)))
	if len(want) >= 3 {
		x.NonTrivial(b.String())
	}
	return nil
}

func sizeClass(what string, n int) string {
	for _, k := range []int{4, 16, 64, 256, 1024, 4096} {
		if n <= k {
			return fmt.Sprintf("%s: up to %d", what, k)
		}
	}
	return what + ": more"
}

// runNest: Parts are a core block and two sibling blocks; Ints: routine or not, then wrappers
// with the siblings to put around each.
func runNest(c *drv.Case, x *drv.Ctx) error {
	core, err := alone(string(c.Parts[0]))
	if err != nil {
		return err
	}
	var sib [2]*ast.ModuleStatement
	for i := range sib {
		if sib[i], err = alone(string(c.Parts[1+i])); err != nil {
			return err
		}
	}
	ws := c.Ints[1:]
	if len(ws) == 0 {
		ws = []int{0}
	}
	var b strings.Builder
	loops, handlers := map[int]bool{}, map[int]bool{} // levels inside a loop, a handler
	inLoop, inHandler := false, false
	for i := len(ws) - 1; i >= 0; i-- {
		n := ws[i]
		loops[i], handlers[i] = inLoop, inHandler
		k := n % 16 % len(blockWraps)
		if n&16 != 0 {
			b.WriteString(string(c.Parts[1]) + "\n;\n")
		}
		b.WriteString(blockWraps[k].open + "\n")
		inLoop = inLoop || 4 <= k && k <= 6
		inHandler = inHandler || k == 8
	}
	b.WriteString(string(c.Parts[0]))
	for i, n := range ws {
		b.WriteString("\n" + blockWraps[n%16%len(blockWraps)].close)
		if n&32 != 0 {
			b.WriteString("\n;\n" + string(c.Parts[2]))
		}
		if n&64 != 0 && loops[i] {
			b.WriteString("\n;\n" + []string{"Прервать", "Продолжить"}[n>>8&1])
		}
		if n&128 != 0 && handlers[i] {
			b.WriteString("\n;\nВызватьИсключение")
		}
	}
	src := b.String()
	if c.Ints[0] != 0 {
		src = "Процедура Внешняя()\n" + src + "\nКонецПроцедуры"
	}
	a, err := parse(src)
	if err != nil {
		return fmt.Errorf("a legal part inside %d blocks is rejected: %v\n%.2000s", len(ws), err, src)
	}
	at := a.ModuleStatement.Body
	if c.Ints[0] != 0 {
		if len(at) != 1 {
			return fmt.Errorf("one routine gives %d statements", len(at))
		}
		r, ok := deref(at[0]).(ast.FunctionOrProcedure)
		if !ok {
			return fmt.Errorf("a routine gives %T", at[0])
		}
		at = r.Body
	}
	for i := len(ws) - 1; i >= 0; i-- {
		n := ws[i]
		w := blockWraps[n%16%len(blockWraps)]
		what := fmt.Sprintf("nesting level %d", len(ws)-1-i)
		k := 0
		if n&16 != 0 {
			k = len(sib[0].Body)
			if len(at) < k {
				return fmt.Errorf("%s: %d statements", what, len(at))
			}
			if err := same(what+", before", sib[0].Body, at[:k]); err != nil {
				return err
			}
		}
		if len(at) <= k {
			return fmt.Errorf("%s: only %d statements", what, len(at))
		}
		var after ast.Statements
		if n&32 != 0 {
			after = append(after, sib[1].Body...)
		}
		if n&64 != 0 && loops[i] {
			after = append(after, []ast.Statement{ast.BreakStatement{}, ast.ContinueStatement{}}[n>>8&1])
		}
		if n&128 != 0 && handlers[i] {
			after = append(after, ast.ThrowStatement{})
		}
		if err := same(what+", behind", after, at[k+1:]); err != nil {
			return err
		}
		in, ok := w.in(at[k])
		if !ok {
			return fmt.Errorf("%s: %s … %s gives %.300s", what, w.open, w.close, DeepCut(at[k], 300))
		}
		at = in
	}
	if err := same("innermost block", core.Body, at); err != nil {
		return err
	}
	x.Class(sizeClass("block depth", len(ws)))
	if len(ws) >= 2 {
		x.NonTrivial(src)
	}
	return nil
}

// runExpr: Parts: an expression; Ints: the statement around it, then wrappers.
func runExpr(c *drv.Case, x *drv.Ctx) error {
	val := func(src string) (any, error) {
		m, err := alone("а = " + src)
		if err != nil {
			return nil, err
		}
		if len(m.Body) == 1 {
			if v, ok := deref(m.Body[0]).(ast.AssignmentStatement); ok && len(v.Expr.Statements) == 1 {
				return v.Expr.Statements[0], nil
			}
		}
		return nil, fmt.Errorf("an assignment gives %.300s", Deep(m.Body))
	}
	core, err := val(string(c.Parts[0]))
	if err != nil {
		return err
	}
	var b strings.Builder
	for i := len(c.Ints) - 1; i >= 0; i-- {
		b.WriteString(exprWraps[c.Ints[i]%len(exprWraps)].open + "\n")
	}
	b.WriteString(string(c.Parts[0]))
	for _, n := range c.Ints {
		b.WriteString("\n" + exprWraps[n%len(exprWraps)].close)
	}
	src := b.String()
	at, err := val(src)
	if err != nil {
		return fmt.Errorf("a legal expression inside %d others: %v", len(c.Ints), err)
	}
	for i := len(c.Ints) - 1; i >= 0; i-- {
		w := exprWraps[c.Ints[i]%len(exprWraps)]
		in, ok := w.in(at)
		if !ok {
			return fmt.Errorf("nesting level %d: %s … %s gives %.300s", len(c.Ints)-1-i, w.open, w.close, DeepCut(at, 300))
		}
		at = in
	}
	if !alike(core, at) {
		return fmt.Errorf("an expression inside %d others differs from the one parsed alone, %s", len(c.Ints), treeDiff(Deep(core), Deep(at)))
	}
	x.Class(sizeClass("expression depth", len(c.Ints)))
	if len(c.Ints) >= 2 {
		x.NonTrivial(src)
	}
	return nil
}

// genLong makes a source with one list that is much longer than anything a test holds.
func genLong(g *drv.G, x *lang.Gen) *drv.Case {
	kind := drv.Pick(g, []string{"arguments", "constructor arguments", "raise arguments", "parameters", "module variables", "local variables", "branches", "operands", "links", "indexes", "string lines", "adjacent strings", "labels", "empty arguments"})
	n := g.R(8, 60)
	switch g.W(3, 3, 1) {
	case 1:
		n = drv.Pick(g, []int{15, 16, 31, 32, 63, 64, 127, 128, 199, 200, 255, 256, 257}) + g.N(4)
	case 2:
		n = g.R(200, 1500)
	}
	var pool []string
	for i := g.R(2, 5); i > 0; i-- {
		x.Exprs = g.R(1, 6)
		s, _ := lang.Layout(lang.ExprToks(x.Expr(2), g), g, 0)
		pool = append(pool, strings.ReplaceAll(s, "\n//", "\n //"))
	}
	a, b := g.N(len(pool)), g.N(len(pool))
	next := func() string {
		a, b = b, (a+b+1)%len(pool)
		return pool[a]
	}
	list := func(f func(i int) string, sep string) string {
		var w strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				w.WriteString(sep)
			}
			w.WriteString(f(i))
		}
		return w.String()
	}
	exprs := func(sep string) string {
		return list(func(i int) string { return "(" + next() + "\n)" }, sep)
	}
	name := func(i int) string { return fmt.Sprintf("имя%d", i) }
	var src string
	switch kind {
	case "arguments":
		src = "а = ф(" + exprs(",\n") + ")"
	case "constructor arguments":
		src = "а = Новый Т(" + exprs(", ") + ")"
	case "raise arguments":
		src = "ВызватьИсключение(" + exprs(", ") + ")"
	case "empty arguments":
		src = "ф(" + strings.Repeat(",", n) + next() + "\n" + strings.Repeat(",", n/2) + "1)"
	case "parameters":
		e := g.N(7) + 2
		src = "Процедура П(" + list(func(i int) string {
			s := name(i)
			if i%e == 1 {
				s = "Знач " + s
			}
			if i%(e+1) == 0 {
				s += fmt.Sprintf(" = %d", i)
			}
			return s
		}, ", ") + ")\nКонецПроцедуры"
	case "module variables":
		src = "Перем " + list(name, ",") + " Экспорт;"
	case "local variables":
		src = "Процедура П()\nПерем " + list(name, ", ") + ";\nПерем у1;\nКонецПроцедуры"
	case "branches":
		src = "Если а Тогда\n" + list(func(i int) string {
			return "ИначеЕсли " + next() + "\nТогда\nа = " + next() + "\n"
		}, "\n") + "\nИначе б() КонецЕсли"
	case "operands":
		op := drv.Pick(g, []string{"+", "-", "*", "И", "ИЛИ", "/", "="})
		src = "а = " + exprs("\n"+op+" ")
	case "links":
		src = "а = " + list(func(i int) string {
			if i%5 == 3 {
				return name(i) + "(" + next() + "\n)"
			}
			return name(i)
		}, ".")
	case "indexes":
		src = "а = м[" + exprs("][") + "]"
	case "string lines":
		src = "а = \"" + list(name, "\n|") + "\""
	case "adjacent strings":
		src = "а = " + list(func(i int) string { return "\"" + name(i) + "\"" }, "\n")
	case "labels":
		src = list(func(i int) string { return "~" + name(i) + ":\nПерейти ~" + name(n-1-i) + ";" }, "\n")
	}
	return &drv.Case{Kind: "long", Want: drv.Txt(kind), Src: drv.Txt(src), Ints: []int{n}}
}

func runLong(c *drv.Case, x *drv.Ctx) error {
	src := string(c.Src)
	m, err := read(src)
	if err != nil {
		return err
	}
	a, err := parse(src)
	if err != nil {
		return fmt.Errorf("%d %s are rejected: %v", c.Ints[0], c.Want, err)
	}
	x.Class("long: " + string(c.Want))
	x.Class(sizeClass("list", c.Ints[0]))
	if want, got := lang.DumpModule(m, false), DumpTree(&a.ModuleStatement); want != got {
		return fmt.Errorf("%d %s: the tree differs from the source, %s", c.Ints[0], c.Want, treeDiff(want, got))
	}
	x.NonTrivial(src)
	return nil
}

func init() {
	reg(&drv.Check{
		ID:    "C19",
		Rule:  "declarations, routines and statement groups parsed alone and in modules of up to a few thousand of them; blocks inside up to 1500 others of every kind with and without neighbours, breaks and raises; expressions inside up to 12000 others; lists of every kind of up to 1500 elements; subtrees compared deeply, marks included; non-trivial: at least 3 parts or 2 levels",
		Quick: 80000, Thorough: 1900000,
		Gen: func(g *drv.G) *drv.Case {
			x := lang.NewGen(g)
			x.Stmts, x.Exprs = g.R(1, 6), g.R(3, 30)
			lay := func(ts []lang.Tok) drv.Txt {
				s, _ := lang.Layout(ts, g, g.W(3, 2, 4, 1))
				return drv.Txt(s)
			}
			some := func(limit int) int {
				switch g.W(6, 3, 1) {
				case 0:
					return g.R(1, 6)
				case 1:
					return g.R(4, 40)
				}
				return g.R(20, limit)
			}
			c := &drv.Case{Kind: []string{"parts", "blocks", "expression", "long"}[g.W(4, 4, 4, 1)]}
			if c.Kind == "long" {
				return genLong(g, x)
			}
			block := func() drv.Txt {
				x.Stmts, x.Exprs = g.R(1, 3), g.R(3, 20)
				return lay(lang.BlockToks(x.Block(2, 1), g))
			}
			switch c.Kind {
			case "parts":
				nv, nr, ns := g.N(3), g.N(4), g.N(4)
				taken := 0
				for i := 0; i < nv; i++ {
					v := &lang.VarDecl{Export: g.B()}
					for j := g.R(1, 3); j > 0; j-- {
						taken++
						v.Names = append(v.Names, fmt.Sprintf("п%d", taken))
					}
					if g.B() {
						v.Dir = drv.Pick(g, lang.Directives)
					}
					c.Parts = append(c.Parts, lay(lang.VarToks(v, g)))
				}
				for i := 0; i < nr; i++ {
					x.Stmts, x.Exprs = g.R(1, 4), g.R(3, 20)
					c.Parts = append(c.Parts, lay(lang.RoutineToks(x.Routine(), g)))
				}
				for i := 0; i < ns; i++ {
					c.Parts = append(c.Parts, block())
				}
				c.Ints = []int{nv, nr}
				n := some(400)
				if g.P(1, 40) {
					n = g.R(400, 2000)
				}
				a, b := g.N(12), g.N(12)
				for i := 0; i < n; i++ {
					// a cheap walk over the pool, so that long lists do not need long draws
					a, b = b, (a+b+1+i/7)%12
					c.Ints = append(c.Ints, a)
				}
			case "blocks":
				c.Parts = []drv.Txt{block(), block(), block()}
				c.Ints = []int{g.N(2)}
				n := some(200)
				if g.P(1, 60) { // far deeper, one and the same block
					w := g.N(len(blockWraps)) | g.N(16)<<4 | g.N(2)<<8
					if g.B() {
						w &^= 48
					}
					for n := g.R(100, 1500); n > 0; n-- {
						c.Ints = append(c.Ints, w)
					}
					break
				}
				for ; n > 0; n-- {
					w := g.N(16) | g.N(2)<<8
					if g.P(1, 4) {
						w += 64
					}
					if g.P(1, 4) {
						w += 128
					}
					if g.P(1, 3) {
						w += 16
					}
					if g.P(1, 3) {
						w += 32
					}
					c.Ints = append(c.Ints, w)
				}
			default:
				x.Exprs = g.R(1, 20)
				c.Parts = []drv.Txt{lay(lang.ExprToks(x.Expr(1), g))}
				n := some(600)
				if g.P(1, 60) {
					w := g.N(len(exprWraps))
					for n := g.R(500, 12000); n > 0; n-- {
						c.Ints = append(c.Ints, w)
					}
					break
				}
				for ; n > 0; n-- {
					c.Ints = append(c.Ints, g.N(len(exprWraps)))
				}
			}
			return c
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			switch c.Kind {
			case "parts":
				return runParts(c, x)
			case "blocks":
				return runNest(c, x)
			case "long":
				return runLong(c, x)
			}
			return runExpr(c, x)
		},
	})
}
