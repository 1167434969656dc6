package lang

import (
	"strings"

	"verif/harness/drv"
)

// The grammar of the language as a plain context-free grammar over token kinds: what may
// follow what, without precedence (except in a parameter's default value, where an
// operator may not follow) and without context rules.
const grammarText = `
module :
module : body
module : items optbody
items : item
items : items item
item : vars
item : routine
optdir :
optdir : dir
optexport :
optexport : export
vars : optdir var names optexport ;
routine : optdir func id ( params ) optexport locals optbody endfunc
routine : optdir proc id ( params ) optexport locals optbody endproc
optbody :
optbody : body
body : stmt
body : optbody sep optstmt
optstmt :
optstmt : stmt
sep : ;
sep : :
locals :
locals : locals1
locals1 : var names ;
locals1 : locals1 var names ;
ifst : if expr then optbody elseifs optelse endif
elseifs :
elseifs : elseif expr then optbody elseifs
optelse :
optelse : else optbody
ternary : ? ( expr , expr , expr )
loopst : for each id in loopexp loop optbody endloop
loopst : for id eq expr to expr loop optbody endloop
loopst : while expr loop optbody endloop
loopexp : dotted
loopexp : newobj
loopexp : ( newobj )
loopexp : ternary
stmt : dotted eq expr
stmt : expr
stmt : ifst
stmt : loopst
stmt : tryst
stmt : continue
stmt : break
stmt : throw optexpr
stmt : return optexpr
dotted : ident
dotted : dotted . ident
ident : id
ident : id ( exprs )
ident : ident [ expr ]
ident : exec execparam
ident : exec ( expr )
execparam : str
execparam : id
tryst : try optbody catch optbody endtry
expr : simple
expr : ( exprs )
expr : expr op expr
op : +
op : -
op : *
op : /
op : %
op : >
op : <
op : eq
op : or
op : and
op : ne
op : le
op : ge
expr : not expr
expr : newobj
expr : goto label
expr : ternary
expr : dotted
optexpr :
optexpr : expr
exprs : optexpr
exprs : exprs , optexpr
simple : str
simple : num
simple : - expr
simple : + expr
simple : true
simple : false
simple : date
simple : undef
simple : label
param : id
param : val id
param : param eq pdef
pdef : str
pdef : num
pdef : true
pdef : false
pdef : date
pdef : undef
pdef : label
pdef : - uexpr
pdef : + uexpr
prim : str
prim : num
prim : true
prim : false
prim : date
prim : undef
prim : label
prim : ( exprs )
prim : newobj
prim : goto label
prim : ternary
prim : dotted
uexpr : prim
uexpr : - uexpr
uexpr : + uexpr
uexpr : not cexpr
cexpr : uexpr
cexpr : cexpr cop cexpr
cop : +
cop : -
cop : *
cop : /
cop : %
cop : >
cop : <
cop : eq
cop : ne
cop : le
cop : ge
params :
params : param
params : params , param
newobj : new id
newobj : new id ( exprs )
newobj : new ( exprs )
names : id
names : names , id
`

type rule struct {
	lhs int
	rhs []int // >= 0 nonterminal, < 0 terminal ^index
}

type cfg struct {
	rules    []rule
	byLHS    [][]int
	nullable []bool
	term     map[string]int
	nt       map[string]int
	terms    []string
}

var grammar = func() *cfg {
	g := &cfg{term: map[string]int{}, nt: map[string]int{}}
	lines := strings.Split(strings.TrimSpace(grammarText), "\n")
	for _, l := range lines {
		f := strings.Fields(l)
		if _, ok := g.nt[f[0]]; !ok {
			g.nt[f[0]] = len(g.nt)
		}
	}
	g.byLHS = make([][]int, len(g.nt))
	for _, l := range lines {
		f := strings.Fields(l)
		r := rule{lhs: g.nt[f[0]]}
		for _, s := range f[2:] {
			if n, ok := g.nt[s]; ok {
				r.rhs = append(r.rhs, n)
				continue
			}
			if _, ok := g.term[s]; !ok {
				g.term[s] = len(g.terms)
				g.terms = append(g.terms, s)
			}
			r.rhs = append(r.rhs, ^g.term[s])
		}
		g.byLHS[r.lhs] = append(g.byLHS[r.lhs], len(g.rules))
		g.rules = append(g.rules, r)
	}
	g.nullable = make([]bool, len(g.nt))
	for ch := true; ch; {
		ch = false
	next:
		for _, r := range g.rules {
			if g.nullable[r.lhs] {
				continue
			}
			for _, s := range r.rhs {
				if s < 0 || !g.nullable[s] {
					continue next
				}
			}
			g.nullable[r.lhs] = true
			ch = true
		}
	}
	return g
}()

// Terminals lists every token kind of the grammar.
func Terminals() []string { return grammar.terms }

type item struct{ rule, dot, from int32 }

// Recognise runs an Earley recogniser over token kinds. It returns whether the sequence is
// a module and, if not, the index of the first token that cannot continue any module
// (len(kinds) if the sequence is a proper beginning of one). Deep nesting and long right
// recursive lists take quadratic time: beyond a limit it gives up, with true and -1.
func Recognise(kinds []string) (ok bool, at int) {
	drv.Ref(func() { ok, at = recognise(kinds) })
	return
}

const recogniseLimit = 4_000_000

func recognise(kinds []string) (ok bool, at int) {
	total := 0
	g := grammar
	n := len(kinds)
	sets := make([][]item, n+1)
	start := g.nt["module"]
	var seen map[item]bool
	var pred []bool
	for i := 0; i <= n; i++ {
		prev := sets[i]
		seen = make(map[item]bool, 64)
		pred = make([]bool, len(g.nt))
		set := make([]item, 0, 64)
		add := func(it item) {
			if !seen[it] {
				seen[it] = true
				set = append(set, it)
			}
		}
		predict := func(x int) {
			if !pred[x] {
				pred[x] = true
				for _, r := range g.byLHS[x] {
					add(item{int32(r), 0, int32(i)})
				}
			}
		}
		if i == 0 {
			predict(start)
		}
		for _, it := range prev {
			add(it)
		}
		if len(set) == 0 {
			return false, i - 1
		}
		for j := 0; j < len(set); j++ {
			it := set[j]
			r := g.rules[it.rule]
			if int(it.dot) == len(r.rhs) {
				src := sets[it.from]
				if int(it.from) == i {
					continue // empty derivation: handled by nullable prediction
				}
				for _, p := range src {
					pr := g.rules[p.rule]
					if int(p.dot) < len(pr.rhs) && pr.rhs[p.dot] == r.lhs {
						add(item{p.rule, p.dot + 1, p.from})
					}
				}
				continue
			}
			s := r.rhs[it.dot]
			if s >= 0 {
				predict(s)
				if g.nullable[s] {
					add(item{it.rule, it.dot + 1, it.from})
				}
			}
		}
		sets[i] = set
		if total += len(set); total > recogniseLimit {
			return true, -1
		}
		if i == n {
			for _, it := range set {
				r := g.rules[it.rule]
				if r.lhs == start && int(it.dot) == len(r.rhs) && it.from == 0 {
					return true, n
				}
			}
			return false, n
		}
		k, known := g.term[kinds[i]]
		if !known {
			return false, i
		}
		for _, it := range set {
			r := g.rules[it.rule]
			if int(it.dot) < len(r.rhs) && r.rhs[it.dot] == ^k {
				sets[i+1] = append(sets[i+1], item{it.rule, it.dot + 1, it.from})
			}
		}
	}
	return false, n
}

func Kinds(toks []Tok) []string {
	ks := make([]string, len(toks))
	for i, t := range toks {
		ks[i] = t.Kind
	}
	return ks
}
