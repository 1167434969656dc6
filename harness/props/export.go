package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C17: the JSON a tree has to give, written out by hand for every kind of node.

type obj map[string]any

func wantList(ss ast.Statements) any {
	if ss == nil {
		return nil
	}
	out := make([]any, len(ss))
	for i, s := range ss {
		out[i] = wantJSON(s)
	}
	return out
}

func wantJSON(s any) any {
	switch v := deref(s).(type) {
	case nil:
		return nil
	case float64, string, bool:
		return v
	case time.Time:
		return v.UTC().Format("2006-01-02T15:04:05Z")
	case ast.UndefinedStatement, ast.BreakStatement, ast.ContinueStatement:
		return obj{}
	case ast.VarStatement:
		return obj{"Name": v.Name}
	case ast.GoToLabelStatement:
		return obj{"Name": v.Name}
	case ast.GoToStatement:
		return obj{"Label": wantJSON(v.Label)}
	case ast.MethodStatement:
		return obj{"Name": v.Name, "Param": wantJSON(v.Param)}
	case ast.NewObjectStatement:
		return obj{"Constructor": v.Constructor, "Param": wantJSON(v.Param)}
	case ast.CallChainStatement:
		return obj{"Unit": wantJSON(v.Unit), "Call": wantJSON(v.Call)}
	case ast.ItemStatement:
		return obj{"Object": wantJSON(v.Object), "Item": wantJSON(v.Item)}
	case ast.TernaryStatement:
		return obj{"Expression": wantJSON(v.Expression), "TrueBlock": wantJSON(v.TrueBlock), "ElseBlock": wantJSON(v.ElseBlock)}
	case ast.ExpStatement:
		return obj{"Left": wantJSON(v.Left), "Right": wantJSON(v.Right), "Operation": opCodes[v.Operation]}
	case ast.ExprStatements:
		return obj{"Statements": wantList(v.Statements)}
	case ast.AssignmentStatement:
		return obj{"Var": wantJSON(v.Var), "Expr": wantJSON(v.Expr)}
	case ast.IfStatement:
		return obj{"Expression": wantJSON(v.Expression), "TrueBlock": wantList(v.TrueBlock), "IfElseBlock": wantList(v.IfElseBlock), "ElseBlock": wantList(v.ElseBlock)}
	case ast.TryStatement:
		return obj{"Body": wantList(v.Body), "Catch": wantList(v.Catch)}
	case ast.ThrowStatement:
		return obj{"Param": wantJSON(v.Param)}
	case ast.ReturnStatement:
		return obj{"Param": wantJSON(v.Param)}
	case ast.LoopStatement:
		return obj{"For": wantJSON(v.For), "To": wantJSON(v.To), "In": wantJSON(v.In), "WhileExpr": wantJSON(v.WhileExpr), "Body": wantList(v.Body)}
	case ast.FunctionOrProcedure:
		var ps []any
		for _, p := range v.Params {
			ps = append(ps, obj{"Name": p.Name, "IsValue": p.IsValue, "Default": wantJSON(p.Default)})
		}
		ls := obj{}
		for k, l := range v.ExplicitVariables {
			ls[k] = wantJSON(l)
		}
		return obj{"Name": v.Name, "Directive": v.Directive, "Export": v.Export, "Type": map[ast.StatementType]float64{ast.PFTypeProcedure: 1, ast.PFTypeFunction: 2}[v.Type],
			"Params": ps, "ExplicitVariables": ls, "Body": wantList(v.Body)}
	}
	return obj{"unknown kind": fmt.Sprintf("%T", s)}
}

// opCodes are the published operation codes.
var opCodes = map[ast.OperationType]float64{
	ast.OpPlus: 1, ast.OpMinus: 2, ast.OpMul: 3, ast.OpDiv: 4, ast.OpEq: 5, ast.OpGt: 6, ast.OpLt: 7, ast.OpNe: 8, ast.OpLe: 9, ast.OpGe: 10, ast.OpMod: 11, ast.OpOr: 12, ast.OpAnd: 13,
}

func wantModule(m *ast.ModuleStatement) any {
	vs := obj{}
	for k, v := range m.GlobalVariables {
		vs[k] = obj{"Directive": v.Directive, "Export": v.Export, "Var": wantJSON(v.Var)}
	}
	return obj{"Name": m.Name, "GlobalVariables": vs, "Body": wantList(m.Body)}
}

// blank tells whether an absent key, null and this value say the same.
func blank(v any) bool {
	switch v := v.(type) {
	case nil:
		return true
	case []any:
		return len(v) == 0
	case string:
		return v == ""
	case bool:
		return !v
	}
	return false
}

// match compares the expected with the decoded JSON; more keys than expected are allowed.
func match(path string, want, got any) error {
	diff := func() error { return fmt.Errorf("at %s the JSON has %.200v, the tree has %.200v", path, got, want) }
	switch w := want.(type) {
	case obj:
		g, ok := got.(map[string]any)
		if !ok {
			if len(w) == 0 && got == nil && path[len(path)-1] == 's' { // no variables at all
				return nil
			}
			return diff()
		}
		for k, x := range w {
			y, there := g[k]
			if !there && (blank(x) || isEmptyMap(x)) || blank(x) && y == nil {
				continue
			}
			if err := match(path+"."+k, x, y); err != nil {
				return err
			}
		}
		if path[len(path)-1] == 's' && len(w) != len(g) && (len(path) > 9 && path[len(path)-9:] == "Variables") {
			return diff()
		}
		return nil
	case []any:
		if len(w) == 0 && blank(got) {
			return nil
		}
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return diff()
		}
		for i := range w {
			if err := match(fmt.Sprintf("%s[%d]", path, i), w[i], g[i]); err != nil {
				return err
			}
		}
		return nil
	case float64:
		if g, ok := got.(float64); !ok || g != w || math.IsNaN(w) {
			return diff()
		}
		return nil
	}
	if want != got {
		return diff()
	}
	return nil
}

func isEmptyMap(x any) bool {
	m, ok := x.(obj)
	return ok && len(m) == 0
}

var hugeDigits = strings.Repeat("9", 320)

func exported(src string) (*ast.AstNode, any, error) {
	a, err := parse(src)
	if err != nil {
		return nil, nil, fmt.Errorf("a well-formed module is rejected: %v", err)
	}
	j, err := a.JSON()
	if err != nil {
		return nil, nil, fmt.Errorf("the JSON export fails: %v", err)
	}
	var d any
	if err := json.Unmarshal(j, &d); err != nil {
		return nil, nil, fmt.Errorf("the export is not valid JSON: %v\n%s", err, j)
	}
	if err := match("module", wantModule(&a.ModuleStatement), d); err != nil {
		return nil, nil, fmt.Errorf("%v\n%s", err, j)
	}
	return a, d, nil
}

// edit changes one visible thing of a module.
func edit(g *drv.G, m *lang.Module) (string, []lang.Tok) {
	if g.P(1, 3) {
		var ps []lang.Place
		for _, p := range lang.Places(m) {
			if len(*p.B) > 0 {
				ps = append(ps, p)
			}
		}
		if len(ps) > 0 {
			p := drv.Pick(g, ps)
			b := *p.B
			i := g.N(len(b))
			if j := i + 1; g.B() && j < len(b) && b[i].Kind == b[j].Kind && lang.DumpStmts(b[i:j], false) != lang.DumpStmts(b[j:j+1], false) {
				b[i], b[j] = b[j], b[i]
				return "statements swapped", lang.ModuleToks(m, g)
			}
			*p.B = append(append([]*lang.Stmt{}, b[:i]...), b[i+1:]...)
			return "statement deleted", lang.ModuleToks(m, g)
		}
	}
	toks := lang.ModuleToks(m, g)
	ops := [][]string{{"+", "-"}, {"*", "/", "%"}, {"<", ">", "le", "ge", "ne"}, {"and", "or"}}
	var at []int
	for i, t := range toks {
		switch t.Kind {
		case "id", "num", "str", "date", "dir", "export", "val", "true", "false", "label", "*", "/", "%", "<", ">", "le", "ge", "ne", "and", "or":
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return "", nil
	}
	i := drv.Pick(g, at)
	t := &toks[i]
	kind := t.Kind
	switch t.Kind {
	case "id":
		t.Text = t.Text + "ъъ"
	case "label":
		t.Text = t.Text + "ъъ"
	case "num":
		t.Text = "987654321.25"
	case "str":
		t.Text = `"ъъ"`
	case "date":
		t.Text = "'20310204050607'"
	case "true", "false":
		*t = lang.TokOf(g, map[string]string{"true": "false", "false": "true"}[t.Kind])
	case "export", "val":
		toks = append(append([]lang.Tok{}, toks[:i]...), toks[i+1:]...)
	case "dir":
		old := t.Text
		for lang.Lower(old) == lang.Lower(t.Text) {
			*t = lang.TokOf(g, "dir")
		}
	default:
		for _, o := range ops {
			for j, k := range o {
				if k == t.Kind {
					*t = lang.TokOf(g, o[(j+1+g.N(len(o)-1))%len(o)])
					return "operator", toks
				}
			}
		}
	}
	return kind, toks
}

func init() {
	reg(&drv.Check{
		ID:    "C17",
		Rule:  "random modules: the export, decoded, must hold everything of the tree in the published shape; and pairs of modules that differ in one name, literal, operator, flag, directive or statement must give different JSON; non-trivial: a pair, or a module of at least 3 statements",
		Quick: 130000, Thorough: 3000000,
		Fixed: both(big("good", 99, "shape"), counted("shape")),
		Gen: func(g *drv.G) *drv.Case {
			src, m := genSource(g, nil)
			c := &drv.Case{Kind: "shape", Src: drv.Txt(src)}
			if g.P(1, 30) {
				// a number no export can hold: if the parser takes it, the export must still work
				toks, le := lang.Lex(src)
				var at []int
				for i, t := range toks {
					if t.Kind == "num" {
						at = append(at, i)
					}
				}
				if le == nil && len(at) > 0 {
					toks[drv.Pick(g, at)].Text = drv.Pick(g, []string{hugeDigits, hugeDigits + ".5", "1" + strings.Repeat("0", 309), strings.Repeat("9", 308)})
					s, _ := lang.Layout(toks, g, g.N(4))
					c.Kind, c.Src = "huge number", drv.Txt(s)
				}
				return c
			}
			if g.B() {
				kind, toks := edit(g, m)
				if toks == nil {
					return c
				}
				s, _ := lang.Layout(toks, g, g.W(3, 2, 4, 1))
				if _, err := lang.Read(s); err != nil {
					return c
				}
				c.Kind, c.Src2 = "pair: "+kind, drv.Txt(s)
			}
			return c
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			if c.Kind == "huge number" {
				if _, err := parse(string(c.Src)); err != nil {
					x.Class("huge number rejected")
					return nil
				}
				x.Class("huge number accepted")
				_, _, err := exported(string(c.Src))
				return err
			}
			m, err := read(string(c.Src))
			if err != nil {
				return err
			}
			a, d, err := exported(string(c.Src))
			if err != nil {
				return err
			}
			n := count(m)
			n.classes(x)
			if c.Src2 == "" {
				x.Class("shape")
				if n.stmts >= 3 {
					x.NonTrivial(string(c.Src))
				}
				return nil
			}
			m2, err := read(string(c.Src2))
			if err != nil {
				return err
			}
			if v := lang.Context(m2); len(v) > 0 || lang.DumpModule(m, false) == lang.DumpModule(m2, false) {
				x.Class("edit without effect")
				return nil
			}
			_, d2, err := exported(string(c.Src2))
			if err != nil {
				return err
			}
			x.Class(c.Kind)
			x.NonTrivial(string(c.Src) + "\x00" + string(c.Src2))
			b1, _ := json.Marshal(d)
			b2, _ := json.Marshal(d2)
			if string(b1) == string(b2) {
				return fmt.Errorf("two different modules have the same JSON\n%s", b1)
			}
			_ = a
			return nil
		},
	})
}
