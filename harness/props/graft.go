package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C22: a tree edited through its public fields (or through Walk) gives everything that the
// tree parsed from the edited source gives.

// grafter writes the differences between two trees into the first one. At each differing
// node it either takes the whole node over from the other tree or goes on inside it.
type grafter struct {
	state   uint32
	whole   int // of 16, how often a node is taken over whole
	byWalk  bool
	elem    reflect.Value // the list element at hand, which a walk may be able to reach
	pending map[*ast.Statement]ast.Statement
	sets    int
	kinds   map[string]int
}

func (g *grafter) take() bool {
	g.state = g.state*1664525 + 1013904223
	return int(g.state>>24)%16 < g.whole
}

func (g *grafter) set(a, b reflect.Value) {
	g.sets++
	t := b
	for t.Kind() == reflect.Interface || t.Kind() == reflect.Pointer {
		if t.IsNil() {
			break
		}
		t = t.Elem()
	}
	g.kinds[t.Type().String()]++
	if g.byWalk && g.elem == a {
		if slot, ok := a.Addr().Interface().(*ast.Statement); ok && !a.IsNil() && !b.IsNil() {
			g.pending[slot] = b.Interface()
			return
		}
	}
	a.Set(b)
}

var markType = reflect.TypeOf((*ast.INot)(nil)).Elem()

func equal(a, b reflect.Value) bool {
	return reflect.DeepEqual(a.Interface(), b.Interface()) && hiddenText(a) == hiddenText(b) // 0 is not -0
}

// graft makes a equal to b; a can be set.
func (g *grafter) graft(a, b reflect.Value) {
	if equal(a, b) {
		return
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() || g.take() {
			g.set(a, b)
			return
		}
		g.graft(a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() || a.Elem().Type() != b.Elem().Type() || g.take() {
			g.set(a, b)
			return
		}
		if a.Elem().Kind() == reflect.Pointer {
			g.graft(a.Elem().Elem(), b.Elem().Elem())
			return
		}
		c := reflect.New(a.Elem().Type()).Elem()
		c.Set(a.Elem())
		g.graft(c, b.Elem())
		a.Set(c)
	case reflect.Struct:
		if a.Type() == timeType {
			g.set(a, b)
			return
		}
		// marks (Не, minus) cannot be set from outside
		mark := reflect.PointerTo(a.Type()).Implements(markType)
		for i := 0; mark && i < a.NumField(); i++ {
			if !a.Type().Field(i).IsExported() && hiddenText(a.Field(i)) != hiddenText(b.Field(i)) {
				g.set(a, b)
				return
			}
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).IsExported() {
				g.graft(a.Field(i), b.Field(i))
			}
		}
	case reflect.Slice:
		if a.IsNil() || b.IsNil() || g.take() {
			g.set(a, b)
			return
		}
		n := min(a.Len(), b.Len())
		for i := 0; i < n; i++ {
			if a.Len() == b.Len() { // otherwise the elements may move
				g.elem = a.Index(i)
			}
			g.graft(a.Index(i), b.Index(i))
		}
		if a.Len() > n {
			g.sets++
			a.Set(a.Slice(0, n))
		}
		for i := n; i < b.Len(); i++ {
			g.sets++
			a.Set(reflect.Append(a, b.Index(i)))
		}
	case reflect.Map:
		if a.IsNil() || b.IsNil() || g.take() {
			g.set(a, b)
			return
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() {
				g.sets++
				a.SetMapIndex(k, reflect.Value{})
			}
		}
		for _, k := range b.MapKeys() {
			v := b.MapIndex(k)
			if o := a.MapIndex(k); o.IsValid() {
				c := reflect.New(a.Type().Elem()).Elem()
				c.Set(o)
				g.graft(c, v)
				v = c
			}
			g.sets++
			a.SetMapIndex(k, v)
		}
	default:
		g.set(a, b)
	}
}

// hiddenText is the text of a field that cannot be read through an interface.
func hiddenText(v reflect.Value) string {
	var b strings.Builder
	deep(&b, v, 1<<20)
	return b.String()
}

// change edits a module at one place and gives back its tokens; the module may be changed.
func change(g *drv.G, x *lang.Gen, m *lang.Module) []lang.Tok {
	x.Stmts, x.Exprs = g.R(1, 4), g.R(5, 30)
	switch g.W(6, 4, 2, 2, 3) {
	case 0:
		if _, toks := edit(g, m); toks != nil {
			return toks
		}
	case 1:
		if ps := lang.Places(m); len(ps) > 0 {
			p := drv.Pick(g, ps)
			p.Insert(g, x.Stmt(1))
		}
	case 2:
		r := x.Routine()
		at := g.N(len(m.Routines) + 1)
		m.Routines = append(m.Routines[:at:at], append([]*lang.Routine{r}, m.Routines[at:]...)...)
	case 3:
		taken := map[string]bool{}
		for _, v := range m.Vars {
			for _, n := range v.Names {
				taken[n] = true
			}
		}
		if n := x.Name(); !taken[n] {
			v := &lang.VarDecl{Names: []string{n}, Export: g.B()}
			at := g.N(len(m.Vars) + 1)
			m.Vars = append(m.Vars[:at:at], append([]*lang.VarDecl{v}, m.Vars[at:]...)...)
		}
	default:
		if len(m.Routines) == 0 {
			break
		}
		i := g.N(len(m.Routines))
		r := m.Routines[i]
		switch g.N(7) {
		case 0:
			r.Name = x.Name()
		case 1:
			r.Export = !r.Export
		case 2:
			r.Params = x.Routine().Params
		case 3:
			r.Locals = x.Routine().Locals
		case 4:
			r.Fn = true
		case 5:
			m.Routines = append(m.Routines[:i:i], m.Routines[i+1:]...)
		case 6:
			j := g.N(len(m.Routines))
			m.Routines[i], m.Routines[j] = m.Routines[j], m.Routines[i]
		}
	}
	return lang.ModuleToks(m, g)
}

func genGraft(g *drv.G) *drv.Case {
	c := &drv.Case{Ints: []int{g.N(1 << 16), g.R(0, 12), g.N(1 << 10), g.N(2)}}
	x := lang.NewGen(g)
	x.Stmts, x.Exprs = min(x.Stmts, 10), min(x.Exprs, 40)
	m := x.Module()
	add := func(toks []lang.Tok) bool {
		src, _ := lang.Layout(toks, g, 0)
		n, err := lang.Read(src)
		if err != nil || len(lang.Context(n)) > 0 {
			return false
		}
		m = n
		c.Parts = append(c.Parts, drv.Txt(src))
		return true
	}
	if !add(lang.ModuleToks(m, g)) {
		return nil
	}
	for i, n := 0, 1+g.Geo(1, 2, 3); i < n; i++ {
		var toks []lang.Tok
		if g.P(1, 8) { // another module altogether
			x := lang.NewGen(g)
			x.Stmts, x.Exprs = min(x.Stmts, 8), min(x.Exprs, 40)
			toks = lang.ModuleToks(x.Module(), g)
		} else {
			for k := 1 + g.Geo(1, 2, 4); k > 0; k-- {
				toks = change(g, x, m)
				if n, err := lang.ReadToks(toks); err == nil {
					m = n
				}
			}
		}
		if !add(toks) {
			break
		}
	}
	return c
}

// respell holds numbers in other types and expressions by value or by pointer instead.
type respeller struct {
	state uint32
	n     int
}

func (r *respeller) roll(n uint32) uint32 {
	r.state = r.state*1664525 + 1013904223
	return r.state >> 16 % n
}

func (r *respeller) visit(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			r.visit(v.Elem())
		}
	case reflect.Struct:
		for i := 0; v.Type() != timeType && i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				r.visit(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.visit(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(v.MapIndex(k))
			r.visit(c)
			v.SetMapIndex(k, c)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if e := v.Elem(); e.Kind() == reflect.Struct {
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			r.visit(c)
			v.Set(c)
		} else {
			r.visit(e)
		}
		if w := r.other(v.Interface()); w != nil {
			v.Set(reflect.ValueOf(w))
			r.n++
		}
	}
}

func (r *respeller) other(v any) any {
	switch v := v.(type) {
	case float64:
		k := r.roll(5)
		if f := float32(v); k == 3 && strconv.FormatFloat(float64(f), 'g', -1, 32) == strconv.FormatFloat(v, 'g', -1, 64) {
			return f
		}
		if v != math.Trunc(v) || math.Abs(v) > 1<<31-1 || v == 0 && math.Signbit(v) {
			return nil
		}
		switch k {
		case 0:
			return int(v)
		case 1:
			return int32(v)
		case 2:
			return int64(v)
		}
	case *ast.ExpStatement:
		if r.roll(2) == 0 {
			return *v
		}
	case ast.ExprStatements:
		if r.roll(2) == 0 && len(v.Statements) == 1 {
			return &v
		}
	}
	return nil
}

func init() {
	reg(&drv.Check{
		ID:    "C22",
		Rule:  "a module is parsed and its tree edited, in one to four rounds, into that of a changed source, by assigning public fields, list elements and map entries (single fields, or whole nodes taken from another tree), or through the callback of a walk; after each round the printed text in all configurations, the statements printed alone, the JSON and the walk must be those of the changed source parsed afresh; non-trivial: at least one assignment below the top level",
		Quick: 80000, Thorough: 1800000,
		Gen: genGraft,
		Run: func(c *drv.Case, x *drv.Ctx) error {
			a, err := parse(string(c.Parts[0]))
			if err != nil {
				return fmt.Errorf("a well-formed module is rejected: %v", err)
			}
			sets := 0
			for i, p := range c.Parts[1:] {
				for k := range facetNames {
					if c.Ints[2]>>k&1 != 0 {
						facet(a, k)
					}
				}
				want := outcomeOf(string(p))
				if want.Err != "" {
					return fmt.Errorf("a well-formed module is rejected: %v", want.Err)
				}
				b, _ := parse(string(p))
				g := &grafter{state: uint32(c.Ints[0] + i), whole: c.Ints[1], byWalk: c.Ints[3] != 0, pending: map[*ast.Statement]ast.Statement{}, kinds: map[string]int{}}
				g.graft(reflect.ValueOf(&a.ModuleStatement).Elem(), reflect.ValueOf(&b.ModuleStatement).Elem())
				if len(g.pending) > 0 {
					x.ClassN("set through a walk", len(g.pending))
					a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
						if n, ok := g.pending[stm]; ok {
							*stm = n
							delete(g.pending, stm)
						}
					})
					x.ClassN("set directly after it", len(g.pending))
					for slot, n := range g.pending { // operands, which a walk hands out as copies
						*slot = n
					}
				}
				for k := range facetNames {
					if got, want := facet(a, k), want.facet(k); got != want {
						return fmt.Errorf("round %d: %s of the edited tree is not that of the edited source, %s", i, facetNames[k], firstDiff(want, got))
					}
				}
				sets += g.sets
				for k, n := range g.kinds {
					x.ClassN("set "+k, n)
				}
				x.Class("round")
			}
			// the same numbers in other types, the same expressions by value or by pointer
			want := outcomeOf(string(c.Parts[len(c.Parts)-1]))
			r := &respeller{state: uint32(c.Ints[0])}
			r.visit(reflect.ValueOf(&a.ModuleStatement))
			x.ClassN("held in another type", r.n)
			for k, name := range facetNames {
				if name == "walk" || name == "tree" {
					continue
				}
				if got, want := facet(a, k), want.facet(k); got != want {
					return fmt.Errorf("%s of the tree with values in other types is not that of the source, %s", name, firstDiff(want, got))
				}
			}
			if sets > 0 {
				x.NonTrivial(fmt.Sprint(c.Ints, c.Parts))
			}
			return nil
		},
	})
}
