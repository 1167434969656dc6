package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

var timeType = reflect.TypeOf(time.Time{})

// Deep is a text of all a value says: its exported fields and its hidden marks; pointers are
// followed. Other hidden fields (a place in the text, a cache) are the code's own business: what
// they do shows in what is made from the tree.
func Deep(v any) string {
	var b strings.Builder
	deep(&b, reflect.ValueOf(v), 1<<40)
	return b.String()
}

// DeepCut is about the first n bytes of Deep.
func DeepCut(v any, n int) string {
	var b strings.Builder
	deep(&b, reflect.ValueOf(v), n)
	return b.String()
}

func deep(b *strings.Builder, v reflect.Value, max int) {
	if b.Len() > max {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		deep(b, v.Elem(), max)
	case reflect.Struct:
		if v.Type() == timeType {
			fmt.Fprint(b, v)
			return
		}
		b.WriteString(v.Type().Name())
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); !f.IsZero() && says(v.Type(), i) {
				b.WriteString(v.Type().Field(i).Name)
				b.WriteByte(':')
				deep(b, f, max)
				b.WriteByte(' ')
			}
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			deep(b, v.Index(i), max)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			deep(&e, k, max)
			e.WriteByte(':')
			deep(&e, v.MapIndex(k), max)
			ks = append(ks, e.String())
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "map%q", ks)
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float64, reflect.Float32:
		b.WriteString(strconv.FormatFloat(v.Float(), 'x', -1, 64))
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}

// says tells that field i of a struct belongs to what a value says: the exported ones, and those
// that hold a mark, whatever they are called and however they hold it.
func says(t reflect.Type, i int) bool {
	f := t.Field(i)
	return f.IsExported() || f.Anonymous || f.Type.Kind() == reflect.Bool || markFields()[fieldOf{t, i}]
}

type fieldOf struct {
	of reflect.Type
	i  int
}

// markFields are the fields that change when a node is negated.
var markFields = sync.OnceValue(func() map[fieldOf]bool {
	out := map[fieldOf]bool{}
	var differ func(a, b reflect.Value)
	differ = func(a, b reflect.Value) {
		if a.Type() != b.Type() {
			return
		}
		if a.Kind() == reflect.Pointer && !a.IsNil() && !b.IsNil() {
			differ(a.Elem(), b.Elem())
		}
		for i := 0; a.Kind() == reflect.Struct && i < a.NumField(); i++ {
			f, h := a.Field(i), b.Field(i)
			var s, t strings.Builder
			fmt.Fprintf(&s, "%#v", f)
			fmt.Fprintf(&t, "%#v", h)
			if s.String() != t.String() {
				out[fieldOf{a.Type(), i}] = true
				differ(f, h)
			}
		}
	}
	probe := func(make func() any, mark func(any) any) {
		defer func() { recover() }()
		a, b := make(), mark(make())
		differ(reflect.ValueOf(a), reflect.ValueOf(b))
	}
	for _, node := range []func() any{
		func() any { return &ast.ExpStatement{Operation: ast.OpPlus, Left: 1.0, Right: 2.0} },
		func() any { return ast.ExprStatements{Statements: ast.Statements{1.0, 2.0}} },
		func() any { return ast.VarStatement{Name: "а"} },
		func() any {
			return ast.CallChainStatement{Unit: ast.VarStatement{Name: "а"}, Call: ast.VarStatement{Name: "б"}}
		},
		func() any { return ast.MethodStatement{Name: "а"} },
		func() any { return ast.ItemStatement{Item: 1.0, Object: ast.VarStatement{Name: "а"}} },
		func() any { return ast.TernaryStatement{Expression: 1.0, TrueBlock: 2.0, ElseBlock: 3.0} },
	} {
		probe(node, func(n any) any { return n.(interface{ Not() interface{} }).Not() })
		probe(node, func(n any) any { return n.(interface{ UnaryMinus() interface{} }).UnaryMinus() })
	}
	return out
})

// alike compares as reflect.DeepEqual does, but only what the values say.
func alike(a, b any) bool { return alikeV(reflect.ValueOf(a), reflect.ValueOf(b)) }

func alikeV(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Kind() == reflect.Pointer && a.Pointer() == b.Pointer() {
			return true
		}
		return alikeV(a.Elem(), b.Elem())
	case reflect.Struct:
		if a.Type() == timeType {
			return fmt.Sprint(a) == fmt.Sprint(b)
		}
		for i := 0; i < a.NumField(); i++ {
			if says(a.Type(), i) && !alikeV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Kind() == reflect.Slice && a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !alikeV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if v := b.MapIndex(k); !v.IsValid() || !alikeV(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Float64, reflect.Float32:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float()) // 0 is not -0
	}
	if a.CanInt() {
		return a.Int() == b.Int()
	}
	if a.CanUint() {
		return a.Uint() == b.Uint()
	}
	return true
}
