package main

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// ident names a node by its kind and its header; what stands in its blocks does not count,
// so the name survives a replacement of inner statements. Names in the generated sources
// are unique, and so is nearly every ident.
func ident(s any) string {
	switch v := deref(s).(type) {
	case ast.FunctionOrProcedure:
		return "routine " + v.Name
	case ast.IfStatement:
		return "if " + Deep(v.Expression)
	case ast.LoopStatement:
		return "loop " + Deep(v.For) + "|" + Deep(v.To) + "|" + Deep(v.In) + "|" + Deep(v.WhileExpr)
	case ast.TryStatement:
		var b strings.Builder
		b.WriteString("try")
		for _, x := range v.Body {
			b.WriteString(" " + ident(x))
		}
		b.WriteString(" catch")
		for _, x := range v.Catch {
			b.WriteString(" " + ident(x))
		}
		return b.String()
	case ast.Statements, ast.ModuleStatement:
		return "list"
	}
	return Deep(s)
}

type seen struct{ root, parent, node string }

func (s seen) String() string {
	return fmt.Sprintf("root %q\n    parent %s\n    node %s", s.root, s.parent, s.node)
}

// wantWalk is the list of visits a walk has to make, written from the property.
type wantWalk struct {
	roots  map[*ast.FunctionOrProcedure]string
	all    []seen
	edges  map[[2]seen]bool // inner, enclosing
	blocks [][]seen
}

func (w *wantWalk) list(ss ast.Statements, root string, parent seen, kind string) {
	var blk []seen
	for _, s := range ss {
		if n, ok := w.node(s, root, parent); ok {
			blk = append(blk, n)
		}
	}
	if kind == "block" && len(blk) > 1 {
		w.blocks = append(w.blocks, blk)
	}
}

func (w *wantWalk) node(s any, root string, parent seen) (seen, bool) {
	d := deref(s)
	if d == nil {
		return seen{}, false
	}
	if r, ok := s.(*ast.FunctionOrProcedure); ok {
		root = w.root(r)
	}
	me := seen{root, parent.node, ident(s)}
	in := func(x any) { w.node(x, root, me) }
	switch v := d.(type) {
	case ast.FunctionOrProcedure:
		w.list(v.Body, root, me, "block")
	case ast.IfStatement:
		in(v.Expression)
		w.list(v.TrueBlock, root, me, "block")
		w.list(v.IfElseBlock, root, me, "block")
		w.list(v.ElseBlock, root, me, "block")
	case ast.LoopStatement:
		if _, name := v.For.(string); !name {
			in(v.For)
		}
		in(v.To)
		in(v.In)
		in(v.WhileExpr)
		w.list(v.Body, root, me, "block")
	case ast.TryStatement:
		w.list(v.Body, root, me, "block")
		w.list(v.Catch, root, me, "block")
	case ast.ReturnStatement:
		in(v.Param)
	case ast.ThrowStatement:
		in(v.Param)
	case ast.AssignmentStatement:
		w.list(v.Expr.Statements, root, me, "")
	case ast.MethodStatement:
		w.list(v.Param.Statements, root, me, "")
	case ast.NewObjectStatement:
		w.list(v.Param.Statements, root, me, "")
	case ast.ExprStatements:
		w.list(v.Statements, root, me, "")
	case ast.ExpStatement:
		in(v.Left)
		in(v.Right)
	case ast.TernaryStatement:
		in(v.Expression)
		in(v.TrueBlock)
		in(v.ElseBlock)
	case ast.ItemStatement:
		in(v.Object)
		in(v.Item)
	}
	w.all = append(w.all, me)
	if parent.node != "list" {
		w.edges[[2]seen{me, parent}] = true
	}
	return me, true
}

// root tells the routines of one name apart.
func (w *wantWalk) root(r *ast.FunctionOrProcedure) string {
	if s, ok := w.roots[r]; ok {
		return s
	}
	return r.Name
}

func wantOf(m *ast.ModuleStatement) *wantWalk {
	w := &wantWalk{edges: map[[2]seen]bool{}, roots: map[*ast.FunctionOrProcedure]string{}}
	names := map[string]int{}
	for _, s := range m.Body {
		if r, ok := s.(*ast.FunctionOrProcedure); ok {
			names[r.Name]++
		}
	}
	for i, s := range m.Body {
		if r, ok := s.(*ast.FunctionOrProcedure); ok && names[r.Name] > 1 {
			w.roots[r] = fmt.Sprintf("%s (the %d. of the module)", r.Name, i+1)
		}
	}
	w.list(m.Body, "", seen{node: "list"}, "block")
	return w
}

// rewritten replaces the chosen statements of every block the way the walk should.
func rewritten(ss ast.Statements, chosen func(s any) (ast.Statement, bool)) {
	for i, s := range ss {
		switch v := deref(s).(type) {
		case ast.FunctionOrProcedure:
			rewritten(v.Body, chosen)
		case ast.IfStatement:
			rewritten(v.TrueBlock, chosen)
			for _, e := range v.IfElseBlock {
				if ei, ok := deref(e).(ast.IfStatement); ok {
					rewritten(ei.TrueBlock, chosen)
				}
			}
			rewritten(v.ElseBlock, chosen)
		case ast.LoopStatement:
			rewritten(v.Body, chosen)
		case ast.TryStatement:
			rewritten(v.Body, chosen)
			rewritten(v.Catch, chosen)
		}
		if n, ok := chosen(s); ok {
			ss[i] = n
		}
	}
}

// blockStmts counts the idents of the statements standing in blocks.
func blockStmts(ss ast.Statements, out map[string]int) {
	rewritten(ss, func(s any) (ast.Statement, bool) {
		out[ident(s)]++
		return nil, false
	})
}

func init() {
	reg(&drv.Check{
		ID:    "C15",
		Rule:  "random modules with unique names (but some routines of one name): the visits of a walk (enclosing routine, enclosing node, node) as a multiset, inner before enclosing and in block order, against a traversal written from the property; then a random subset of block statements replaced through the callback against the same replacement made directly; non-trivial: at least 8 visits and 3 block statements",
		Quick: 130000, Thorough: 3000000,
		Fixed: both(big("good", 99, "", 7, 3), counted("", 7, 3)),
		Gen: func(g *drv.G) *drv.Case {
			x := lang.NewGen(g)
			x.Unique = true
			m := x.Module()
			if n := len(m.Routines); n > 1 && g.P(1, 3) { // nothing forbids two of one name
				m.Routines[g.N(n)].Name = m.Routines[g.N(n)].Name
			}
			src := layout(g, m)
			return &drv.Case{Src: drv.Txt(src), Ints: []int{g.N(1 << 16), g.R(1, 5)}}
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			src := string(c.Src)
			a, err := parse(src)
			if err != nil {
				return fmt.Errorf("a well-formed module is rejected: %v", err)
			}
			m := &a.ModuleStatement
			w := wantOf(m)
			var got []seen
			m.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
				if stm == nil || deref(*stm) == nil {
					return
				}
				n := seen{node: ident(*stm)}
				if root != nil {
					n.root = w.root(root)
				}
				if parent != nil {
					n.parent = ident(*parent)
				}
				got = append(got, n)
			})
			at := map[seen][]int{}
			for i, n := range got {
				at[n] = append(at[n], i)
			}
			want := map[seen]int{}
			for _, n := range w.all {
				want[n]++
			}
			for _, n := range w.all {
				if k := len(at[n]); k != want[n] {
					return fmt.Errorf("a walk visits this node %d times in place of %d:\n    %s\nvisits of the node: %s", k, want[n], n, near(got, n))
				}
			}
			for _, n := range got {
				if want[n] == 0 {
					return fmt.Errorf("a walk makes a visit that nothing in the module stands for:\n    %s", n)
				}
			}
			parents := map[seen]int{}
			for e := range w.edges {
				parents[e[0]]++
			}
			for e := range w.edges {
				ci, pi := at[e[0]], at[e[1]]
				// equal nodes (literals, mostly) under different nodes, and nodes under several
				// equal ones (a branch with the same literal for a condition) cannot be told apart
				if parents[e[0]] > 1 || len(pi) != 1 {
					continue
				}
				if ci[len(ci)-1] > pi[0] {
					return fmt.Errorf("a walk visits the enclosing node before the inner one:\n    %s", e[0])
				}
			}
			for _, b := range w.blocks {
				last := -1
				for _, n := range b {
					if len(at[n]) != 1 {
						continue
					}
					if at[n][0] < last {
						return fmt.Errorf("a walk visits the statements of a block out of order, at\n    %s", n)
					}
					last = at[n][0]
				}
			}
			// a routine's body walked alone
			for _, s := range m.Body {
				r, ok := s.(*ast.FunctionOrProcedure)
				if !ok || len(r.Body) == 0 {
					continue
				}
				var want, part []seen
				me := ident(s)
				for _, n := range got {
					if n.root == w.root(r) && n.node != me {
						want = append(want, seen{"", n.parent, n.node})
					}
				}
				ast.StatementWalk(s, r.Body, func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
					if stm == nil || deref(*stm) == nil {
						return
					}
					n := seen{node: ident(*stm)}
					if parent != nil {
						n.parent = ident(*parent)
					}
					part = append(part, n)
				})
				if !reflect.DeepEqual(part, want) {
					return fmt.Errorf("walking the body of %s alone makes other visits than the walk of the module makes in it:\n%v\nmodule:\n%v", me, part, want)
				}
				x.ClassN("visits of a body walked alone", len(part))
			}
			// replacement
			all, inBlock := map[string]int{}, map[string]int{}
			for _, n := range w.all {
				all[n.node]++
			}
			blockStmts(m.Body, inBlock)
			total, done := 0, 0
			choose := func(s any) (ast.Statement, bool) {
				switch deref(s).(type) {
				case nil, ast.FunctionOrProcedure, ast.TryStatement:
					return nil, false
				}
				id := ident(s)
				if all[id] != 1 || inBlock[id] != 1 {
					return nil, false
				}
				total++
				h := fnv.New32a()
				fmt.Fprint(h, c.Ints[0], id)
				v := h.Sum32()
				if int(v>>8)%5 >= c.Ints[1] {
					return nil, false
				}
				done++
				return ast.VarStatement{Name: fmt.Sprintf("замена%d", v)}, true
			}
			b, err := parse(src)
			if err != nil {
				return fmt.Errorf("the second parse fails: %v", err)
			}
			rewritten(b.ModuleStatement.Body, choose)
			wantDone := done
			done = 0
			m.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
				if stm == nil {
					return
				}
				if n, ok := choose(*stm); ok {
					*stm = n
				}
			})
			if done != wantDone {
				return fmt.Errorf("the callback of a replacing walk saw %d of %d chosen statements", done, wantDone)
			}
			if !alike(m.Body, b.ModuleStatement.Body) || !alike(m.GlobalVariables, b.ModuleStatement.GlobalVariables) {
				return fmt.Errorf("replacing statements through the callback gives another tree, %s", firstDiff(DumpTree(&b.ModuleStatement), DumpTree(m)))
			}
			x.ClassN("visits", len(got))
			x.ClassN("replaced", wantDone)
			for _, n := range w.all {
				k, _, _ := strings.Cut(n.node, "{")
				k, _, _ = strings.Cut(k, " ")
				if k == "" || k[0] == '"' || k[0] < 'A' {
					k = "literal"
				}
				x.Class("node " + k)
			}
			if len(got) >= 8 && total >= 6 {
				x.NonTrivial(src)
			}
			return nil
		},
	})
}

func near(got []seen, n seen) string {
	var out []string
	for _, s := range got {
		if s.node == n.node {
			out = append(out, "\n    "+s.String())
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "none"
	}
	return strings.Join(out, "")
}
