package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/lang"
)

// deref turns a pointer to a node into the node.
func deref(s any) any {
	if s == nil {
		return nil
	}
	v := reflect.ValueOf(s)
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Interface && v.IsNil() {
		return nil
	}
	return v.Interface()
}

// DumpTree is the canonical text (lang.DumpModule without marks) of a parsed module.
func DumpTree(m *ast.ModuleStatement) string {
	var b strings.Builder
	var vs []string
	for k, v := range m.GlobalVariables {
		l := lang.VarLine(v.Var.Name, v.Directive, v.Export)
		if k != v.Var.Name {
			l += "! stored under " + k + "\n"
		}
		vs = append(vs, l)
	}
	sort.Strings(vs)
	b.WriteString(strings.Join(vs, ""))
	for _, s := range m.Body {
		if r, ok := deref(s).(ast.FunctionOrProcedure); ok {
			b.WriteString(DumpRoutine(&r))
			continue
		}
		dumpStmt(&b, s, 0)
	}
	return b.String()
}

func DumpRoutine(r *ast.FunctionOrProcedure) string {
	var b strings.Builder
	var ps, ls []string
	for _, p := range r.Params {
		def := ""
		if p.Default != nil {
			def = dumpExpr(p.Default)
		}
		ps = append(ps, lang.ParamText(p.Name, p.IsValue, def))
	}
	for k, v := range r.ExplicitVariables {
		if k != v.Name {
			k = "!" + k + "/" + v.Name
		}
		ls = append(ls, k)
	}
	kind := ""
	if r.Type != ast.PFTypeFunction && r.Type != ast.PFTypeProcedure {
		kind = fmt.Sprintf("!type %d ", r.Type)
	}
	b.WriteString(kind + lang.RoutineHead(r.Type == ast.PFTypeFunction, r.Name, r.Directive, r.Export, ps, ls))
	dumpBlock(&b, r.Body, 1)
	b.WriteString("end\n")
	return b.String()
}

func DumpBlock(ss ast.Statements) string {
	var b strings.Builder
	dumpBlock(&b, ss, 0)
	return b.String()
}

func dumpBlock(b *strings.Builder, ss ast.Statements, lvl int) {
	for _, s := range ss {
		dumpStmt(b, s, lvl)
	}
}

func oneExpr(e ast.ExprStatements) string {
	if len(e.Statements) != 1 {
		return fmt.Sprintf("!%d values", len(e.Statements))
	}
	return dumpExpr(e.Statements[0])
}

func dumpStmt(b *strings.Builder, s any, lvl int) {
	ind := strings.Repeat(" ", lvl)
	f := func(format string, a ...any) { fmt.Fprintf(b, format, a...) }
	b.WriteString(ind)
	switch v := deref(s).(type) {
	case nil:
		f("!nil statement\n")
	case ast.AssignmentStatement:
		f("%s := %s\n", dumpExpr(v.Var), oneExpr(v.Expr))
	case ast.IfStatement:
		f("if %s\n", dumpExpr(v.Expression))
		dumpBlock(b, v.TrueBlock, lvl+1)
		for _, e := range v.IfElseBlock {
			ei, ok := deref(e).(ast.IfStatement)
			if !ok {
				f("%s!elseif %T\n", ind, e)
				continue
			}
			f("%selseif %s\n", ind, dumpExpr(ei.Expression))
			dumpBlock(b, ei.TrueBlock, lvl+1)
			if len(ei.IfElseBlock) > 0 || len(ei.ElseBlock) > 0 {
				f("%s!elseif with branches\n", ind)
			}
		}
		if len(v.ElseBlock) > 0 {
			f("%selse\n", ind)
			dumpBlock(b, v.ElseBlock, lvl+1)
		}
		f("%send\n", ind)
	case ast.LoopStatement:
		switch {
		case v.In != nil && v.To == nil && v.WhileExpr == nil:
			n, ok := v.For.(string)
			if !ok {
				n = fmt.Sprintf("!%T", v.For)
			}
			f("foreach %s in %s\n", n, dumpExpr(v.In))
		case v.To != nil && v.In == nil && v.WhileExpr == nil:
			h := "!" + fmt.Sprintf("%T", v.For)
			if e, ok := deref(v.For).(ast.ExpStatement); ok && e.Operation == ast.OpEq {
				h = dumpExpr(e.Left) + " = " + dumpExpr(e.Right)
			}
			f("for %s to %s\n", h, dumpExpr(v.To))
		case v.WhileExpr != nil && v.For == nil && v.To == nil && v.In == nil:
			f("while %s\n", dumpExpr(v.WhileExpr))
		default:
			f("!loop\n")
		}
		dumpBlock(b, v.Body, lvl+1)
		f("%send\n", ind)
	case ast.TryStatement:
		f("try\n")
		dumpBlock(b, v.Body, lvl+1)
		f("%scatch\n", ind)
		dumpBlock(b, v.Catch, lvl+1)
		f("%send\n", ind)
	case ast.ThrowStatement:
		switch p := deref(v.Param).(type) {
		case nil:
			f("throw()\n")
		case ast.ExprStatements:
			f("throw%s\n", dumpArgs(p.Statements))
		default:
			f("throw(%s)\n", dumpExpr(v.Param))
		}
	case ast.ReturnStatement:
		if v.Param == nil {
			f("return\n")
		} else {
			f("return %s\n", dumpExpr(v.Param))
		}
	case ast.BreakStatement:
		f("break\n")
	case ast.ContinueStatement:
		f("continue\n")
	case ast.GoToStatement:
		if v.Label == nil {
			f("!goto nil\n")
		} else {
			f("goto ~%s\n", v.Label.Name)
		}
	case ast.GoToLabelStatement:
		f("label ~%s\n", v.Name)
	default:
		f("expr %s\n", dumpExpr(s))
	}
}

func dumpArgs(ss ast.Statements) string {
	if len(ss) == 1 && deref(ss[0]) == nil {
		return "()"
	}
	out := make([]string, len(ss))
	for i, s := range ss {
		if s == nil {
			out[i] = "_"
		} else {
			out[i] = dumpExpr(s)
		}
	}
	return "(" + strings.Join(out, ",") + ")"
}

var opNames = map[ast.OperationType]string{
	ast.OpPlus: "+", ast.OpMinus: "-", ast.OpMul: "*", ast.OpDiv: "/", ast.OpMod: "%", ast.OpEq: "=", ast.OpNe: "<>",
	ast.OpGt: ">", ast.OpLt: "<", ast.OpLe: "<=", ast.OpGe: ">=", ast.OpOr: "ИЛИ", ast.OpAnd: "И",
}

// dumpMember is the text of what follows a dot; there every name keeps its letters.
func dumpMember(s any) string {
	switch v := deref(s).(type) {
	case ast.MethodStatement:
		return v.Name + dumpArgs(v.Param.Statements)
	case ast.ItemStatement:
		return dumpMember(v.Object) + "[" + dumpExpr(v.Item) + "]"
	case ast.VarStatement:
		return v.Name
	}
	return "!" + dumpExpr(s)
}

func dumpExpr(s any) string {
	switch v := deref(s).(type) {
	case nil:
		return "!nil"
	case float64:
		return lang.NumText(v)
	case string:
		return lang.StrText(v)
	case bool:
		return lang.BoolText(v)
	case time.Time:
		if v.IsZero() {
			return "@0"
		}
		if v.Nanosecond() != 0 || v.Location() != time.UTC {
			return "!" + v.String()
		}
		return lang.DateText(v.Format("20060102150405"))
	case ast.UndefinedStatement:
		return "undef"
	case ast.VarStatement:
		return v.Name
	case ast.MethodStatement:
		return lang.CallName(v.Name) + dumpArgs(v.Param.Statements)
	case ast.ItemStatement:
		return dumpExpr(v.Object) + "[" + dumpExpr(v.Item) + "]"
	case ast.CallChainStatement:
		return dumpExpr(v.Call) + "." + dumpMember(v.Unit)
	case ast.NewObjectStatement:
		return "new " + v.Constructor + dumpArgs(v.Param.Statements)
	case ast.TernaryStatement:
		return "?(" + dumpExpr(v.Expression) + "," + dumpExpr(v.TrueBlock) + "," + dumpExpr(v.ElseBlock) + ")"
	case ast.ExpStatement:
		op := opNames[v.Operation]
		if op == "" {
			op = fmt.Sprintf("!op %d", v.Operation)
		}
		return "(" + dumpExpr(v.Left) + " " + op + " " + dumpExpr(v.Right) + ")"
	case ast.ExprStatements:
		if len(v.Statements) == 1 {
			if v.Statements[0] == nil {
				return "!empty"
			}
			return dumpExpr(v.Statements[0])
		}
		return "tuple" + dumpArgs(v.Statements)
	}
	return fmt.Sprintf("!%T", s)
}
