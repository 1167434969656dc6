package lang

import (
	"fmt"
	"strconv"
	"strings"

	"verif/harness/drv"
)

// Gen builds random well-formed modules. Everything it builds is inside the subset the
// properties speak about; see DESIGN.md for what is left out and why.
type Gen struct {
	*drv.G
	Stmts     int  // remaining statements
	Exprs     int  // remaining expression nodes
	Loose     bool // expressions of any kind stand as statements
	MaxDepth  int  // block nesting
	NoContext bool // no break, continue, bare raise, labels, values returned
	NoMarks   bool // no НЕ, no unary minus or plus
	Simple    bool // plain names only
	Unique    bool // every name is different
	Marks     int  // weight factor of НЕ and minus, default 1
	Lits      bool // mostly literals as leaves
	Members   bool // long chains, mostly reserved words as members
	Decls     bool // many declarations, little code
	Deep      int  // weight factor of nested blocks, default 1
	MaxExpr   int  // expression nesting
	Ctx       int  // weight factor of break, continue, raise, return, default 1

	inLoop, inCatch, inFn bool
	seq                   int
}

// NewGen returns a generator with a size drawn from small to large.
func NewGen(g *drv.G) *Gen {
	x := &Gen{G: g, MaxDepth: 4, MaxExpr: 4, Marks: 1, Ctx: 1, Deep: 1}
	switch g.W(30, 40, 20, 10, 5, 2) {
	case 4: // few wide blocks, deep nesting
		x.Stmts, x.Exprs, x.MaxDepth, x.Deep = g.R(8, 25), 40, 16, 6
	case 5: // deep expressions
		x.Stmts, x.Exprs, x.MaxExpr = g.R(1, 3), 150, 16
	case 0:
		x.Stmts, x.Exprs = g.R(1, 3), 14
	case 1:
		x.Stmts, x.Exprs = g.R(2, 7), 30
	case 2:
		x.Stmts, x.Exprs = g.R(4, 16), 70
	case 3:
		x.Stmts, x.Exprs = g.R(10, 30), 120
	}
	return x
}

var simpleNames = []string{"а", "б", "в", "Имя", "x", "Сумма", "Товар", "Список", "foo", "Запрос", "Результат1", "_п", "Строка", "i"}

// hardNames look like keywords without being any, or use letters a careless scanner splits on.
var hardNames = []string{
	"Если1", "_Если", "ЕслиНе", "Не_", "Ине", "ИИ", "ИЛИ1", "НеНе", "КонецЕслиЕсли", "Возвратить", "ПоПо", "Из_",
	"Новый1", "Длина", "Дляя", "Цикл2", "Циклы", "Истинно", "Ложный", "Процедура1", "КонецПроцедурыИ", "Экспортный",
	"Выполнитель", "Пер", "Пере", "Знач1", "Неопределен", "Тогдаа", "ЕCЛИ", "Пoка", "Hе", "И1", "По1",
	"ёлка", "Ёж", "ёЁ", "Щука", "Эхо", "эЮя", "Яя", "пп", "Рр", "Пп", "ПР", "РП", "Abc", "ZZ", "aZ", "__", "_1", "Ж_9", "élan", "straße", "İi", "ıx", "名前", "Ϊ", "ǅ",
	"If", "EndIf", "Procedure", "And", "Not", "True", "Массив", "Структура", "Вычислить", "Null", "Асинх", "Ждать", "Каждый", "ДляКаждого", "ВызватьИсключениеИ",
	"оченьДлинноеИмяПеременнойКотороеНеПомещаетсяВОбычныйБуферИСодержитМногоБукв",
}

var nameRunes = []rune("абвгдежзийклмнопрстуфхцчшщъыьэюяёАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯЁabcxyzABCXYZ_éßłΩ中0123456789")

func (g *Gen) Name() string {
	if g.Unique {
		g.seq++
		return "имя" + strconv.Itoa(g.seq)
	}
	if len(dictNames) > 0 && g.P(1, 12) {
		return g.dictName()
	}
	if g.Simple {
		return drv.Pick(g.G, simpleNames)
	}
	if len(DictInts) > 0 && g.P(1, 40) {
		if n, ok := DictSize(g.G, 5000); ok {
			return longName(g.G, n, g.B())
		}
	}
	switch g.W(100, 66, 33, 1) {
	case 0:
		return drv.Pick(g.G, simpleNames)
	case 1:
		return drv.Pick(g.G, hardNames)
	case 3: // long, around and beyond the sizes buffers have
		return longName(g.G, drv.Pick(g.G, []int{31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000})+g.N(3), false)
	}
	for {
		n := g.R(1, 7)
		rs := make([]rune, n)
		for i := range rs {
			m := len(nameRunes)
			if i == 0 {
				m -= 10
			}
			rs[i] = nameRunes[g.N(m)]
		}
		s := string(rs)
		if _, kw := Keywords[Lower(s)]; !kw {
			return s
		}
		if s2 := s + "1"; true {
			return s2
		}
	}
}

// longName makes a name of n letters, or (bytes) of n bytes.
func longName(g *drv.G, n int, bytes bool) string {
	rs, size := []rune{'д'}, 2
	a, b := g.N(len(nameRunes)), g.N(len(nameRunes))
	for len(rs) < n && !bytes || bytes && size < n {
		r := nameRunes[a]
		if bytes && size == n-1 {
			r = 'z'
		}
		rs = append(rs, r)
		size += len(string(r))
		a, b = b, (a+b+1)%len(nameRunes)
	}
	if _, kw := Keywords[Lower(string(rs))]; kw { // a short one may be
		rs = append(rs, '1')
	}
	return string(rs)
}

// fresh returns names that differ from each other even ignoring letter case.
func (g *Gen) fresh(taken map[string]bool) string {
	s := g.Name()
	for taken[strings.ToLower(s)] {
		g.seq++
		s += string(rune('0' + g.seq%10))
	}
	taken[strings.ToLower(s)] = true
	return s
}

// KwList lists the keyword terminals in a fixed order.
var KwList = func() []string {
	var ks []string
	for _, t := range Terminals() {
		if _, ok := KwText[t]; ok {
			ks = append(ks, t)
		}
	}
	return ks
}()

func (g *Gen) memberName() string {
	if g.Members && g.P(2, 3) {
		return Recase(g.G, KwText[drv.Pick(g.G, KwList)])
	}
	if !g.Simple && g.P(1, 4) {
		return Recase(g.G, KwText[drv.Pick(g.G, KwList)])
	}
	return g.Name()
}

// Recase changes the case of Cyrillic and Latin letters at random.
func Recase(g *drv.G, s string) string {
	switch g.N(4) {
	case 0:
		return s
	case 1:
		return Lower(s)
	case 2:
		return strings.ToUpper(s)
	}
	var b strings.Builder
	for _, r := range s {
		if g.B() {
			b.WriteString(strings.ToUpper(string(r)))
		} else {
			b.WriteString(Lower(string(r)))
		}
	}
	return b.String()
}

func (g *Gen) Module() *Module {
	m := &Module{}
	taken := map[string]bool{}
	if g.P(1, 3) || g.Decls && g.P(2, 3) {
		for i, n := 0, g.R(1, 3); i < n; i++ {
			v := &VarDecl{Dir: g.dir(), Export: g.P(1, 3)}
			for j, k := 0, g.names(); j < k; j++ {
				v.Names = append(v.Names, g.fresh(taken))
			}
			m.Vars = append(m.Vars, v)
		}
	}
	nr := g.W(5, 4, 3, 2, 1)
	if nr == 4 {
		nr = g.R(4, 7)
	}
	if g.Decls {
		nr = g.R(1, 6)
	}
	for i := 0; i < nr; i++ {
		m.Routines = append(m.Routines, g.Routine())
	}
	if nr == 0 || g.P(1, 2) {
		m.Body = g.Block(0, 1)
	}
	if g.P(1, 60) || len(DictInts) > 0 && g.P(1, 12) {
		g.swell(m)
	}
	return m
}

// names draws the length of a list of names.
func (g *Gen) names() int {
	n := 1 + g.Geo(1, 3, 4)
	if n == 5 || g.Decls && g.P(1, 20) {
		n = g.R(4, 12)
	}
	return n
}

func (g *Gen) dir() string {
	if g.P(1, 3) {
		return Recase(g.G, drv.Pick(g.G, Directives))
	}
	return ""
}

func (g *Gen) Routine() *Routine {
	r := &Routine{Fn: g.B(), Dir: g.dir(), Name: g.Name(), Export: g.P(1, 3)}
	ps := map[string]bool{}
	np := g.W(8, 6, 4, 2, 2, 1)
	if np == 5 {
		np = g.R(5, 14)
	}
	for i := 0; i < np; i++ {
		p := Param{Name: g.fresh(ps), ByVal: g.P(1, 3)}
		if g.P(2, 5) {
			p.Def = g.Literal(true)
		}
		r.Params = append(r.Params, p)
	}
	if g.P(1, 3) || g.Decls && g.B() {
		ls := map[string]bool{}
		for k := range ps {
			ls[k] = true
		}
		if len(r.Params) > 0 && g.P(1, 6) { // the parser lets a local variable have the name of a parameter
			p := drv.Pick(g.G, r.Params)
			delete(ls, strings.ToLower(p.Name))
			r.Locals = append(r.Locals, []string{p.Name})
			ls[strings.ToLower(p.Name)] = true
		}
		for i, n := 0, g.names(); i < n; i++ {
			var names []string
			for j, k := 0, g.names(); j < k; j++ {
				names = append(names, g.fresh(ls))
			}
			r.Locals = append(r.Locals, names)
		}
	}
	g.inFn = r.Fn
	r.Body = g.Block(0, 0)
	g.inFn = false
	return r
}

// bare makes an expression that can stand as a statement.
func (g *Gen) bare() *Expr {
	if g.P(1, 4) { // comparisons: what stands on their left decides whether they read as assignments
		l := g.target()
		for n := g.R(1, 3); n > 0; n-- {
			switch g.W(3, 1) {
			case 1:
				op := drv.Pick(g.G, binOps)
				l = &Expr{Kind: Bin, Text: op, L: g.level(l, lvl[op]), R: g.level(g.Expr(2), lvl[op]+1)}
			default:
				l = &Expr{Kind: Paren, L: l}
			}
		}
		e := &Expr{Kind: Bin, Text: "=", L: g.level(l, 4), R: g.level(g.Expr(1), 5)}
		if assigns(e) || g.P(1, 4) {
			return &Expr{Kind: Paren, L: e}
		}
		return e
	}
	e := g.Expr(0)
	if assigns(e) || e.Kind != Paren && g.P(1, 5) {
		return &Expr{Kind: Paren, L: e}
	}
	return e
}

// assigns says whether e, standing as a statement, would read as an assignment.
func assigns(e *Expr) bool {
	if e.Kind != Bin {
		return false
	}
	if e.L.Kind == Bin {
		return assigns(e.L)
	}
	return e.Text == "=" && e.L.Kind != Paren
}

// Block makes a list of statements, at least min.
func (g *Gen) Block(depth, min int) []*Stmt {
	var out []*Stmt
	n := min + g.Geo(3, 5, 6)
	if min == 0 && g.P(1, 5) {
		n = 0
	}
	for i := 0; i < n; i++ {
		if g.Stmts <= 0 && i >= min {
			break
		}
		out = append(out, g.Stmt(depth))
	}
	return out
}

func (g *Gen) Stmt(depth int) *Stmt {
	g.Stmts--
	deep := g.Deep
	if depth >= g.MaxDepth || g.Stmts <= 0 {
		deep = 0
	}
	ctx := 1
	if g.NoContext {
		ctx = 0
	}
	loop, catch, fn := 0, 0, 0
	if g.inLoop {
		loop = 3 * ctx * g.Ctx
	}
	if g.inCatch {
		catch = 2 * ctx * g.Ctx
	}
	if g.inFn {
		fn = 4 * ctx * g.Ctx
	}
	switch g.W(10, 8, 7*deep, 3*deep, 3*deep, 3*deep, 4*deep, 2, fn, 1, loop, loop, ctx, ctx, 1, catch) {
	case 0:
		return &Stmt{Kind: Assign, L: g.target(), E: g.Expr(0)}
	case 1:
		if g.Loose && g.P(1, 3) {
			return &Stmt{Kind: CallSt, E: g.bare()}
		}
		return &Stmt{Kind: CallSt, E: g.Call()}
	case 2:
		s := &Stmt{Kind: If}
		n := 1 + g.Geo(1, 2, 4)
		if n == 5 {
			n = g.R(5, 12)
		}
		for i := 0; i < n; i++ {
			s.Conds = append(s.Conds, g.Expr(0))
			s.Blocks = append(s.Blocks, g.Block(depth+1, 0))
		}
		if g.P(2, 5) {
			s.Else = g.Block(depth+1, 0)
		}
		return s
	case 3:
		return &Stmt{Kind: ForEach, Name: g.Name(), E: g.iterable(), Blocks: g.loopBody(depth)}
	case 4:
		return &Stmt{Kind: For, Name: g.Name(), E: g.Expr(0), E2: g.Expr(0), Blocks: g.loopBody(depth)}
	case 5:
		return &Stmt{Kind: While, E: g.Expr(0), Blocks: g.loopBody(depth)}
	case 6:
		s := &Stmt{Kind: Try}
		b := g.Block(depth+1, 0)
		old := g.inCatch
		g.inCatch = true
		h := g.Block(depth+1, 0)
		g.inCatch = old
		s.Blocks = [][]*Stmt{b, h}
		return s
	case 7:
		s := &Stmt{Kind: Throw}
		switch g.W(3, 1) {
		case 0:
			s.Args = []*Expr{g.Expr(0)}
		default:
			for i, n := 0, g.R(2, 3); i < n; i++ {
				var a *Expr
				if i == 0 || g.P(3, 4) {
					a = g.Expr(0)
				}
				s.Args = append(s.Args, a)
			}
		}
		return s
	case 8:
		return &Stmt{Kind: Return, E: g.Expr(0)}
	case 9:
		return &Stmt{Kind: Return}
	case 10:
		return &Stmt{Kind: Break}
	case 11:
		return &Stmt{Kind: Continue}
	case 12:
		return &Stmt{Kind: Goto, Name: g.Name()}
	case 13:
		return &Stmt{Kind: Label, Name: g.Name()}
	case 14:
		s := &Stmt{Kind: Exec, Name: Recase(g.G, KwText["exec"])}
		switch g.N(4) {
		case 0:
			s.E = g.Expr(0)
		case 1:
			s.E = g.str()
		case 2:
			s.Form = 1
			s.E = g.str()
		case 3:
			s.Form = 1
			s.E = &Expr{Kind: Chain, Links: []Link{{Name: g.Name()}}}
		}
		return s
	default:
		return &Stmt{Kind: Throw}
	}
}

func (g *Gen) loopBody(depth int) [][]*Stmt {
	old := g.inLoop
	g.inLoop = true
	b := g.Block(depth+1, 0)
	g.inLoop = old
	return [][]*Stmt{b}
}

// ---- expressions ----

var lvl = map[string]int{"ИЛИ": 1, "И": 2, "=": 4, "<>": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

// LevelOf is the binding strength of an expression's outermost operator.
func LevelOf(e *Expr) int {
	switch e.Kind {
	case Bin:
		return lvl[e.Text]
	case Not:
		return 3
	case Neg, Plus:
		return 7
	}
	return 8
}

// level parenthesises e if it binds weaker than min.
func (g *Gen) level(e *Expr, min int) *Expr {
	if LevelOf(e) < min {
		return &Expr{Kind: Paren, L: e}
	}
	return e
}

func (g *Gen) Expr(depth int) *Expr {
	e := g.expr0(depth)
	if g.P(1, 12) {
		e = &Expr{Kind: Paren, L: e}
	}
	return e
}

var binOps = []string{"+", "-", "*", "/", "%", "=", "<>", "<", ">", "<=", ">=", "И", "ИЛИ"}

func (g *Gen) expr0(depth int) *Expr {
	g.Exprs--
	if depth > g.MaxExpr || g.Exprs <= 0 {
		return g.leaf()
	}
	marks := g.Marks
	if g.NoMarks {
		marks = 0
	}
	switch g.W(8, 9, 4*marks, 3*marks, 1, 1) {
	case 0:
		return g.primary(depth)
	case 1:
		op := drv.Pick(g.G, binOps)
		p := lvl[op]
		l := g.level(g.Expr(depth+1), p)
		r := g.level(g.Expr(depth+1), p+1)
		return &Expr{Kind: Bin, Text: op, L: l, R: r}
	case 2:
		for {
			o := g.Expr(depth + 1)
			if g.P(1, 6) {
				o = g.marked(depth)
			}
			if k := o.Kind; k == Str || k == Date || k == Undef || k == New {
				o = &Expr{Kind: Bool, B: g.B()}
			}
			if o.Kind != Not {
				o = g.level(o, 4)
			}
			return &Expr{Kind: Not, L: o}
		}
	case 3:
		return &Expr{Kind: Neg, L: g.negOperand(depth)}
	case 4:
		if g.NoMarks {
			return g.primary(depth)
		}
		return &Expr{Kind: Plus, L: g.negOperand(depth)}
	}
	return &Expr{Kind: Paren, L: g.Expr(depth + 1)}
}

// marked makes a bracketed expression that is nothing but a mark on one operand.
func (g *Gen) marked(depth int) *Expr {
	o := g.chain(depth+1, -1)
	if g.P(1, 4) {
		o = &Expr{Kind: Paren, L: o}
	}
	for i := g.R(1, 2); i > 0; i-- {
		k := Not
		if o.Kind != Not && g.B() {
			k = Neg
		}
		o = &Expr{Kind: k, L: o}
	}
	return &Expr{Kind: Paren, L: o}
}

func (g *Gen) negOperand(depth int) *Expr {
	o := g.Expr(depth + 1)
	if g.P(1, 6) {
		o = g.marked(depth)
	}
	switch o.Kind {
	case Str, Date, Undef, New, Bool:
		o = g.num()
	case Neg, Plus:
	default:
		o = g.level(o, 8)
	}
	return o
}

// arith makes an expression without comparisons or logic at its top.
func (g *Gen) arith() *Expr {
	switch g.N(3) {
	case 0:
		return g.num()
	case 1:
		return &Expr{Kind: Bin, Text: drv.Pick(g.G, []string{"+", "-", "*"}), L: g.level(g.chain(2, -1), 5), R: g.level(g.num(), 7)}
	}
	return g.level(g.Expr(2), 5)
}

func (g *Gen) leaf() *Expr {
	if g.Lits && g.P(4, 5) {
		return g.Literal(false)
	}
	if g.B() {
		return &Expr{Kind: Chain, Links: []Link{{Name: g.Name()}}}
	}
	return g.Literal(false)
}

func (g *Gen) primary(depth int) *Expr {
	switch g.W(6, 8, 2, 2) {
	case 0:
		return g.leaf()
	case 1:
		return g.chain(depth, -1)
	case 2:
		return &Expr{Kind: Tern, C: g.Expr(depth + 1), L: g.Expr(depth + 1), R: g.Expr(depth + 1)}
	}
	return g.newObj(depth)
}

func (g *Gen) newObj(depth int) *Expr {
	e := &Expr{Kind: New}
	switch g.N(4) {
	case 0:
		e.Text = g.Name()
	case 1, 2:
		e.Text, e.Par = g.Name(), true
		e.Args = g.args(depth)
	default:
		e.Par = true
		e.Args = append([]*Expr{g.Expr(depth + 1)}, g.args(depth)...)
	}
	return e
}

func (g *Gen) args(depth int) []*Expr {
	n := g.W(12, 16, 12, 4, 4, 1)
	if n == 5 {
		n = g.R(5, 12)
	}
	var out []*Expr
	for i := 0; i < n; i++ {
		if g.P(1, 6) || i > 4 && g.P(1, 2) {
			out = append(out, nil)
		} else {
			out = append(out, g.Expr(depth+1))
		}
	}
	if len(out) == 1 && out[0] == nil {
		return nil
	}
	return out
}

// chain makes names joined by dots; call is 1 to end in a call, 0 to end in no call, -1 for either.
func (g *Gen) chain(depth, call int) *Expr {
	e := &Expr{Kind: Chain}
	n := 1 + g.Geo(2, 5, 4)
	if g.Members {
		n = 1 + g.Geo(2, 3, 6)
	}
	for i := 0; i < n; i++ {
		l := Link{Name: g.Name()}
		if i > 0 {
			l.Name = g.memberName()
		}
		last := i == n-1
		l.Call = g.P(1, 3)
		if last && call >= 0 {
			l.Call = call == 1
		}
		if l.Call && g.Exprs > 0 {
			l.Args = g.args(depth)
		}
		if !(last && call == 1) {
			for k := g.Geo(1, 5, 2); k > 0; k-- {
				l.Idx = append(l.Idx, g.Expr(depth+2))
			}
		}
		e.Links = append(e.Links, l)
	}
	return e
}

// Call makes a procedure call statement's expression.
func (g *Gen) Call() *Expr { return g.chain(0, 1) }

func (g *Gen) target() *Expr {
	if g.P(1, 2) {
		return &Expr{Kind: Chain, Links: []Link{{Name: g.Name()}}}
	}
	return g.chain(1, 0)
}

func (g *Gen) iterable() *Expr {
	switch g.W(6, 2, 1, 1) {
	case 0:
		return g.chain(1, -1)
	case 1:
		return g.newObj(1)
	case 2:
		return &Expr{Kind: Paren, L: g.newObj(1)}
	}
	return &Expr{Kind: Tern, C: g.Expr(2), L: g.Expr(2), R: g.Expr(2)}
}

// ---- literals ----

// Literal makes a literal; signed ones only where a parameter default is wanted.
func (g *Gen) Literal(signed bool) *Expr {
	switch g.W(5, 5, 2, 3, 2) {
	case 0:
		e := g.num()
		if signed && !g.NoMarks {
			for i := g.Geo(1, 4, 2); i > 0; i-- {
				k := Neg
				if g.P(1, 5) {
					k = Plus
				}
				e = &Expr{Kind: k, L: e}
			}
		}
		return e
	case 1:
		return g.str()
	case 2:
		return g.date()
	case 3:
		return &Expr{Kind: Bool, B: g.B()}
	}
	return &Expr{Kind: Undef}
}

var numPool = []string{"0", "1", "2", "10", "0.5", "2.5", "0.1", "123456789", "1.", "007", "3.14159265358979", "99999999999999999999", "0.000001", "1234567.891", "9007199254740993", "100000000000000000000000", "0.30000000000000004", "2.50", "00.0"}

func (g *Gen) num() *Expr {
	if len(dictNums) > 0 && g.P(1, 8) {
		return &Expr{Kind: Num, Text: drv.Pick(g.G, dictNums)}
	}
	if len(DictInts) > 0 && g.P(1, 10) {
		n, _ := DictSize(g.G, 0)
		s := strconv.Itoa(max(n, 0))
		switch {
		case g.P(1, 4) && n > 0 && n < 300: // so many digits
			s = strings.Repeat(string(rune('1'+g.N(9))), n)
		case g.P(1, 4):
			s += "." + s
		}
		return &Expr{Kind: Num, Text: s}
	}
	if g.P(2, 3) {
		return &Expr{Kind: Num, Text: drv.Pick(g.G, numPool)}
	}
	var b strings.Builder
	if g.P(1, 12) { // far behind the point
		return &Expr{Kind: Num, Text: "0." + strings.Repeat("0", g.R(3, 25)) + strconv.Itoa(1+g.N(1<<g.R(3, 30)))}
	}
	n := g.R(1, 9)
	if g.P(1, 30) {
		n = g.R(10, 300)
	}
	for i := 0; i < n; i++ {
		b.WriteByte(byte('0' + g.N(10)))
	}
	if g.B() {
		b.WriteByte('.')
		n := g.R(0, 9)
		if g.P(1, 30) {
			n = g.R(10, 60)
		}
		for i := 0; i < n; i++ {
			b.WriteByte(byte('0' + g.N(10)))
		}
	}
	return &Expr{Kind: Num, Text: b.String()}
}

var strAtoms = []string{
	"а", "Привет", " ", "  ", "x", "1", `""`, `""`, "//", "// не комментарий", "|", "&НаКлиенте", "'", "#Область", "Если", ";", ".", "КонецПроцедуры",
	"%1", "\\", "\\n", "\t", "<", ">", "&", "ё", "名", "😀", "~", "(", ")", "[", "]", "?", "%", "*", "ВЫБРАТЬ", "\u00a0", "{", "}", "=", "@", "`", "$", "^", "!",
}

func (g *Gen) strPiece(max int) string {
	var b strings.Builder
	if len(DictWords) > 0 && g.P(1, 10) {
		b.WriteString(oneLine(strings.ReplaceAll(drv.Pick(g.G, DictWords), `"`, `""`)))
	}
	if len(DictInts) > 0 && g.P(1, 30) {
		if n, ok := DictSize(g.G, 70000); ok {
			atom := drv.Pick(g.G, strAtoms)
			atoms := g.B()
			for i := 0; atoms && i < n || !atoms && b.Len() < n; i++ {
				b.WriteString(atom)
			}
		}
	}
	if g.P(1, 250) { // a long piece
		atom := drv.Pick(g.G, strAtoms)
		for n := drv.Pick(g.G, []int{60, 127, 128, 250, 255, 256, 500, 1000, 1024, 4000, 5000}) + g.N(8); b.Len() < n; {
			b.WriteString(atom)
		}
	}
	for i := g.Geo(3, 4, max); i > 0; i-- {
		b.WriteString(drv.Pick(g.G, strAtoms))
	}
	return b.String()
}

var indents = []string{"", " ", "\t", "    ", " \t ", "\n", "\r\n"}

func (g *Gen) str() *Expr {
	var src, val strings.Builder
	pieces := 1
	if g.P(1, 8) {
		pieces = g.R(2, 3)
	}
	for p := 0; p < pieces; p++ {
		if p > 0 {
			for i := g.Geo(2, 3, 3); i > 0; i-- {
				src.WriteString(drv.Pick(g.G, indents))
			}
			if v := val.String(); strings.HasSuffix(src.String(), `"`) {
				// two quotes in a row would be a doubled quote, not two literals
				_ = v
				src.WriteString(" ")
			}
		}
		src.WriteByte('"')
		s := g.strPiece(5)
		src.WriteString(s)
		val.WriteString(s)
		if g.P(1, 6) {
			for i := g.R(1, 3); i > 0; i-- {
				src.WriteByte('\n')
				src.WriteString(drv.Pick(g.G, indents))
				for g.P(1, 6) {
					src.WriteString("// " + strings.ReplaceAll(g.strPiece(3), "\n", " ") + "\n")
					src.WriteString(drv.Pick(g.G, indents))
				}
				s := g.strPiece(5)
				src.WriteString("|" + s)
				val.WriteString("\n|" + s)
			}
		}
		src.WriteByte('"')
	}
	return &Expr{Kind: Str, Text: val.String(), Src: src.String()}
}

func two(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }

func (g *Gen) date() *Expr {
	var d string
	if g.P(1, 5) {
		d = strings.Repeat("0", drv.Pick(g.G, []int{8, 12, 14, 1, 6}))
	} else {
		d = drv.Pick(g.G, []string{"2024", "1999", "0001", "3999", "2000", "1900"})
		if g.B() {
			d = fmt.Sprintf("%04d", g.R(1, 9999))
		}
		if len(DictInts) > 0 && g.P(1, 4) {
			if n, ok := DictSize(g.G, 3998); ok {
				d = fmt.Sprintf("%04d", max(n, 1))
			}
		}
		mo := g.R(1, 12)
		da := g.R(1, 28)
		if g.P(1, 6) {
			da = []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[mo-1]
		}
		if g.P(1, 10) && (d == "2024" || d == "2000") {
			mo, da = 2, 29
		}
		d += two(mo) + two(da)
		if len(dictDates) > 0 && g.P(1, 4) {
			d = drv.Pick(g.G, dictDates)
		}
		k := g.N(3)
		if k > 0 {
			d += two(g.N(24)) + two(g.N(60))
		}
		if k > 1 {
			d += two(g.N(60))
		}
	}
	src := d
	if g.P(1, 3) && len(d) >= 8 {
		src = d[:4] + "." + d[4:6] + drv.Pick(g.G, []string{".", "-", "/"}) + d[6:8]
		if len(d) > 8 {
			src += drv.Pick(g.G, []string{" ", "T", "  "}) + d[8:10] + ":" + d[10:12]
		}
		if len(d) > 12 {
			src += ":" + d[12:]
		}
	}
	return &Expr{Kind: Date, Text: d, Src: "'" + src + "'"}
}
