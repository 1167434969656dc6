package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C31: names have no meaning of their own.

// named says whether a token carries a name, and which.
func named(t lang.Tok) (string, bool) {
	switch t.Kind {
	case "id":
		return t.Text, true
	case "label":
		return t.Val, t.Val != ""
	}
	return "", false
}

// rename gives the names of a text other names, one each; nil when there are none.
func rename(g *drv.G, src string) (string, bool) {
	toks, le := lang.Lex(src)
	if le != nil {
		return "", false
	}
	free := map[string]bool{} // whether a name stands only where reserved words may stand
	taken := map[string]bool{}
	var order []string
	for i, t := range toks {
		n, ok := named(t)
		if !ok {
			continue
		}
		member := i > 0 && toks[i-1].Kind == "." || t.Kind == "label"
		old, seen := free[n]
		free[n] = member && (old || !seen)
		if !seen {
			order = append(order, n)
			taken[strings.ToLower(n)] = true
		}
	}
	x := lang.NewGen(g)
	few := g.P(1, 3)
	to := map[string]string{}
	for _, n := range order {
		if few && g.P(2, 3) {
			continue
		}
		w := x.Name()
		if free[n] && g.P(1, 3) {
			w = lang.Recase(g, lang.KwText[drv.Pick(g, lang.KwList)])
		}
		for i := 0; taken[strings.ToLower(w)]; i++ {
			w += string(rune('0' + i%10))
		}
		taken[strings.ToLower(w)] = true
		to[n] = w
	}
	return substitute(src, to), len(to) > 0
}

// substitute puts other names into a text.
func substitute(src string, to map[string]string) string {
	toks, _ := lang.Lex(src)
	var b strings.Builder
	at := 0
	for _, t := range toks {
		n, ok := named(t)
		if w := to[n]; ok && w != "" {
			b.WriteString(src[at:t.Off])
			b.WriteString(strings.TrimSuffix(src[t.Off:t.End], n) + w)
			at = t.End
		}
	}
	return b.String() + src[at:]
}

// tokenBag lists the tokens of a text in a fixed order.
func tokenBag(src string) string {
	toks, _ := lang.Lex(src)
	var out []string
	for _, t := range toks {
		out = append(out, t.Text)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// hasTuple tells whether a list of expressions stands where one expression does.
func hasTuple(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer:
		return !v.IsNil() && hasTuple(v.Elem())
	case reflect.Struct:
		for i := 0; v.Type() != timeType && i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && hasTuple(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if hasTuple(v.Index(i)) {
				return true
			}
		}
	case reflect.Interface:
		if v.IsNil() {
			return false
		}
		if e, ok := v.Interface().(ast.ExprStatements); ok && len(e.Statements) > 1 {
			return true
		}
		return hasTuple(v.Elem())
	}
	return false
}

// renamer puts other names into a tree.
type renamer struct {
	to map[string]string
	n  int
}

func (r *renamer) name(s string) string {
	if w, ok := r.to[s]; ok {
		r.n++
		return w
	}
	return s
}

var nameFields = map[string]bool{"Name": true, "Constructor": true}

func (r *renamer) visit(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			r.visit(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			switch {
			case !f.IsExported():
			case nameFields[f.Name] && f.Type.Kind() == reflect.String:
				v.Field(i).SetString(r.name(v.Field(i).String()))
			default:
				r.visit(v.Field(i))
			}
		}
		if l, ok := v.Addr().Interface().(*ast.LoopStatement); ok && l.In != nil {
			if s, ok := l.For.(string); ok {
				l.For = r.name(s)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.visit(v.Index(i))
		}
	case reflect.Map: // by name
		if v.IsNil() {
			return
		}
		m := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(v.MapIndex(k))
			r.visit(c)
			m.SetMapIndex(reflect.ValueOf(r.name(k.String())), c)
		}
		v.Set(m)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if e := v.Elem(); e.Kind() == reflect.Struct {
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			r.visit(c)
			v.Set(c)
		} else {
			r.visit(e)
		}
	}
}

var (
	errPlace  = regexp.MustCompile(`\. line: (\d+), column: (\d+) \(unexpected literal: "`)
	errQuoted = regexp.MustCompile(`"(?:[^"\\]|\\.)*"`)
)

// errorNamed puts the names and the place of the other rendering into an error.
func errorNamed(text string, to map[string]string, src string, toks []lang.Tok, src2 string, toks2 []lang.Tok) string {
	text = errQuoted.ReplaceAllStringFunc(text, func(q string) string {
		if w, ok := to[q[1:len(q)-1]]; ok {
			return fmt.Sprintf("%q", w)
		}
		return q
	})
	return errPlace.ReplaceAllStringFunc(text, func(p string) string {
		for i, t := range toks {
			l, c := lang.LineCol(src, t.Off)
			if p == fmt.Sprintf(`. line: %d, column: %d (unexpected literal: "`, l, c) {
				l, c := lang.LineCol(src2, toks2[i].Off)
				return fmt.Sprintf(`. line: %d, column: %d (unexpected literal: "`, l, c)
			}
		}
		return p
	})
}

func init() {
	reg(&drv.Check{
		ID:    "C31",
		Rule:  "a random module, accepted or rejected, and the same text with its names (or some of them) replaced by others, one for one, words behind dots also by reserved words: both accepted or both rejected with the same error (names and place put in); the printed texts of the first with the names put in must be those of the second, and the tree of the first with the names put in by reflection must print, export, walk and compare as the tree of the second; non-trivial: 3 names replaced in the tree, or an error",
		Quick: 130000, Thorough: 2800000,
		Gen: func(g *drv.G) *drv.Case {
			var src string
			switch g.W(4, 2, 1) {
			case 0:
				src, _ = genSource(g, nil)
			case 1:
				src = mutated(g, nil)
			default:
				x := lang.NewGen(g)
				x.Exprs = g.R(2, 20)
				x.Ctx = 3
				c := violate(g, x, x.Module())
				if c == nil {
					return nil
				}
				src = string(c.Src)
			}
			if len(src) > 30000 {
				return nil
			}
			src2, ok := rename(g, src)
			if !ok {
				return nil
			}
			return &drv.Case{Src: drv.Txt(src), Src2: drv.Txt(src2)}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			s1, s2 := string(c.Src), string(c.Src2)
			t1, e1 := lang.Lex(s1)
			t2, e2 := lang.Lex(s2)
			if e1 != nil || e2 != nil || len(t1) != len(t2) {
				return broken("the renamed text has other tokens: %v %v", e1, e2)
			}
			to, back := map[string]string{}, map[string]string{}
			for i := range t1 {
				a, ok := named(t1[i])
				b, _ := named(t2[i])
				if t1[i].Kind != t2[i].Kind || !ok && t1[i].Text != t2[i].Text {
					return broken("token %d of the renamed text differs", i)
				}
				if !ok {
					continue
				}
				if w, seen := to[a]; seen && w != b {
					return broken("%q has two new names", a)
				}
				if w, seen := back[b]; seen && w != a {
					return broken("%q is the new name of two", b)
				}
				to[a], back[b] = b, a
			}
			a, err1 := parse(s1)
			want := outcomeOf(s2)
			if err1 != nil {
				got := errorNamed(errText(err1), to, s1, t1, s2, t2)
				same := got == want.Err
				if !same { // a string may look like a name
					same = errorNamed(errText(err1), nil, s1, t1, s2, t2) == want.Err
				}
				if !same {
					return fmt.Errorf("the error depends on the names: %q, and with other names %q\n%s", err1, want.Err, s2)
				}
				x.Class("rejected")
				x.NonTrivial(s1 + "\x00" + s2)
				return nil
			}
			if want.Err != "" {
				return fmt.Errorf("with other names the text is rejected: %s\n%s", want.Err, s2)
			}
			for n := range to {
				if k := lang.Keywords[lang.Lower(n)]; k == "exec" { // the operator's name in the tree
					x.Class("Выполнить as a name")
					return nil
				}
			}
			var printed []string
			for _, conf := range confs {
				printed = append(printed, a.Print(conf))
			}
			sorted := len(a.GlobalVariables) > 1 // names are printed in order here and there
			for _, s := range a.Body {
				if f, ok := s.(*ast.FunctionOrProcedure); ok {
					sorted = sorted || len(f.ExplicitVariables) > 1
				}
			}
			for i, p := range printed {
				if hasTuple(reflect.ValueOf(a.Body)) { // not claimed to be printed
					x.Class("a list in brackets")
					break
				}
				if got := substitute(p, to); got != want.Print[i] && (!sorted || tokenBag(got) != tokenBag(want.Print[i])) {
					return fmt.Errorf("the text printed depends on the names, %s", firstDiff(want.Print[i], got))
				}
			}
			r := &renamer{to: to}
			r.visit(reflect.ValueOf(&a.ModuleStatement))
			for k := range facetNames {
				if got, want := facet(a, k), want.facet(k); got != want {
					return fmt.Errorf("%s of the tree with other names is not that of the text with other names, %s", facetNames[k], firstDiff(want, got))
				}
			}
			x.Class("accepted")
			if r.n >= 3 {
				x.NonTrivial(s1 + "\x00" + s2)
			}
			return nil
		},
	})
}
