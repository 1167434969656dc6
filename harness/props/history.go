package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/harness/drv"
	"verif/harness/lang"
)

// C16: what a source gives depends on the source alone.

// outcome is everything observable about one source.
type outcome struct {
	Err, Tree, JSON string
	Print           []string
	Walk            string
	Stmts           string
}

var confs = []ast.PrintConf{{}, {Margin: 4}, {OneLine: true}, {OneLine: true, Margin: 3}}

func walkText(a *ast.AstNode) string {
	var b strings.Builder
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if root != nil {
			b.WriteString(root.Name)
		}
		b.WriteString("/")
		if parent != nil {
			fmt.Fprintf(&b, "%T", *parent)
		}
		b.WriteString("/")
		if stm != nil && *stm != nil {
			b.WriteString(DeepCut(*stm, 150))
		}
		b.WriteString("\n")
	})
	return b.String()
}

func jsonText(a *ast.AstNode) string {
	j, err := a.JSON()
	if err != nil {
		return "error " + err.Error()
	}
	return string(j)
}

func stmtsText(a *ast.AstNode) string {
	var b strings.Builder
	for _, s := range a.ModuleStatement.Body {
		b.WriteString(a.PrintStatement(s) + "\n")
	}
	return b.String()
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return "error: " + err.Error()
}

// facet computes one part of the outcome; -1 is parsing.
func (o *outcome) facet(k int) string {
	switch k {
	case 0, 1, 2, 3:
		return o.Print[k]
	case 4:
		return o.JSON
	case 5:
		return o.Walk
	case 6:
		return o.Stmts
	}
	return o.Tree
}

var facetNames = []string{"printed text", "printed text", "printed text", "printed text", "JSON", "walk", "printed statements", "tree"}

func facet(a *ast.AstNode, k int) string {
	switch k {
	case 0, 1, 2, 3:
		return a.Print(confs[k])
	case 4:
		return jsonText(a)
	case 5:
		return walkText(a)
	case 6:
		return stmtsText(a)
	}
	return Deep(&a.ModuleStatement)
}

func outcomeOf(src string) *outcome {
	a, err := parse(src)
	o := &outcome{Err: errText(err), Tree: facet(a, 7), JSON: facet(a, 4), Walk: facet(a, 5), Stmts: facet(a, 6)}
	for k := range confs {
		o.Print = append(o.Print, facet(a, k))
	}
	return o
}

func (o *outcome) diff(p *outcome) error {
	if o.Err != p.Err {
		return fmt.Errorf("parse result %q, and then %q", o.Err, p.Err)
	}
	for k := range facetNames {
		if o.facet(k) != p.facet(k) {
			return fmt.Errorf("%s differs, %s", facetNames[k], firstDiff(o.facet(k), p.facet(k)))
		}
	}
	return nil
}

// A process of its own for one source: the baseline nothing else can have touched.
const soloEnv = "VERIF_SOLO"

func init() {
	if os.Getenv(soloEnv) == "" {
		return
	}
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	src, err := io.ReadAll(os.Stdin)
	if os.Getenv("TZ") != "" { // zone files may be missing
		time.Local = time.FixedZone("verif", 19800)
	}
	if err == nil {
		err = gob.NewEncoder(out).Encode(outcomeOf(string(src)))
	}
	if err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

func solo(src string) (*outcome, error) {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), soloEnv+"=1", "GORACE=atexit_sleep_ms=0 halt_on_error=1 exitcode=66")
	if len(src)%2 == 0 { // other surroundings
		cmd.Env = append(cmd.Env, "TZ=Asia/Kolkata", "LANG=ru_RU.KOI8-R", "LC_ALL=tr_TR.UTF-8", "GOMAXPROCS=1", "HOME=/nonexistent", "DEBUG=1")
		cmd.Dir = "/"
		cmd.Args = append(cmd.Args, "-v", "debug")
	}
	cmd.Stdin = strings.NewReader(src)
	b, err := cmd.Output()
	if err != nil {
		return nil, broken("a fresh process fails: %v", err)
	}
	o := &outcome{}
	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(o); err != nil {
		return nil, broken("a fresh process answers %q", b)
	}
	return o, nil
}

type parser struct {
	src int
	a   *ast.AstNode
}

// history runs a random sequence of operations over its own parsers and compares every
// answer with the answer of a parser used for nothing else.
func history(srcs []string, base []*outcome, ops []int) error {
	var ps []parser
	for i, op := range ops {
		k, who := op%16, op/16
		if k < 7 && len(ps) > 0 {
			p := ps[who%len(ps)]
			if got := facet(p.a, k); got != base[p.src].facet(k) {
				return fmt.Errorf("operation %d: %s of source %d differs from that of a parser used for it alone, %s", i, facetNames[k], p.src, firstDiff(base[p.src].facet(k), got))
			}
			continue
		}
		n := who % len(srcs)
		a, err := parse(srcs[n])
		if got := errText(err); got != base[n].Err {
			return fmt.Errorf("operation %d: parsing source %d gives %q, alone it gives %q", i, n, got, base[n].Err)
		}
		if got := facet(a, 7); got != base[n].Tree {
			return fmt.Errorf("operation %d: the tree of source %d differs from the one parsed alone, %s", i, n, treeDiff(base[n].Tree, got))
		}
		ps = append(ps, parser{n, a})
		if len(ps) > 8 {
			ps = ps[1:]
		}
	}
	for _, p := range ps {
		if got := facet(p.a, 7); got != base[p.src].Tree {
			return fmt.Errorf("after the history the tree of source %d is another one, %s", p.src, treeDiff(base[p.src].Tree, got))
		}
	}
	return nil
}

// many parses a long row of short modules with names and literals that were not there before.
func many(seed []int, x *drv.Ctx) error {
	s := uint64(len(seed))
	for _, n := range seed {
		s = s*6364136223846793005 + uint64(n)
	}
	roll := func(n uint64) int {
		s = s*6364136223846793005 + 1442695040888963407
		return int(s >> 33 % n)
	}
	letters := []rune("абвгдежзиклмнопрстуфхцчшэюяabcdefghijklmnopqrstuvwxyz_0123456789АБВГДЕЖЗИКЛМНОПРСТ")
	name := func() string {
		b := []rune{letters[roll(53)]}
		for i := 2 + roll(9); i > 0; i-- {
			b = append(b, letters[roll(uint64(len(letters)))])
		}
		if _, ok := lang.Keywords[lang.Lower(string(b))]; ok {
			b = append(b, '_')
		}
		return string(b)
	}
	for i := 0; i < 3000; i++ {
		var src string
		switch roll(4) {
		case 0:
			src = fmt.Sprintf("Процедура %s(%s, Знач %s = %d) Экспорт %s.%s = \"%s\"; КонецПроцедуры", name(), name(), name(), roll(1<<20), name(), name(), name())
		case 1:
			src = fmt.Sprintf("Перем %s, %s; Если %s > %d Тогда %s(%s, \"%s\") КонецЕсли", name(), name(), name(), roll(1<<30), name(), name(), name())
		case 2:
			src = fmt.Sprintf("~%s: Для Каждого %s Из %s Цикл %s[\"%s\"] = -%s; Прервать КонецЦикла; Перейти ~%s", name(), name(), name(), name(), name(), name(), name())
		default:
			src = fmt.Sprintf("%s = Новый %s(%d.%d, '2%03d0101'); ВызватьИсключение %s.%s(%s + %s)", name(), name(), roll(1000), roll(1000), roll(1000), name(), name(), name(), name())
		}
		m, err := lang.Read(src)
		if err != nil || len(lang.Context(m)) > 0 {
			x.Class("two equal names")
			continue
		}
		a, err := parse(src)
		if err != nil {
			return fmt.Errorf("module %d of many: %q is rejected: %v", i, src, err)
		}
		if want, got := lang.DumpModule(m, false), DumpTree(&a.ModuleStatement); want != got {
			return fmt.Errorf("module %d of many: the tree differs from the source %q, %s", i, src, firstDiff(want, got))
		}
		x.ClassN("modules of many", 1)
	}
	return nil
}

func treeDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-60):min(len(s), i+60)] }
	return fmt.Sprintf("at byte %d of its text:\n  want …%s…\n  got  …%s…", i, cut(a), cut(b))
}

// genSources makes a few sources that are likely to disturb each other if anything is
// shared: the same names in another spelling, variants of one text, texts that fail inside
// loops, handlers and functions.
func genSources(g *drv.G) []drv.Txt {
	var out []drv.Txt
	for i, n := 0, g.R(2, 4); i < n; i++ {
		if i > 0 && g.P(1, 2) {
			prev := string(out[g.N(i)])
			toks, le := lang.Lex(prev)
			if le == nil && len(toks) > 0 {
				switch g.N(4) {
				case 0:
					toks = lang.Mutate(g, toks)
				case 1: // names and keywords in another case
					for j := range toks {
						if k := toks[j].Kind; k != "str" && k != "date" {
							toks[j].Text = lang.Recase(g, toks[j].Text)
						}
					}
				case 2: // some literals and names changed
					for j := range toks {
						if k := toks[j].Kind; (k == "num" || k == "str" || k == "date" || k == "id") && g.P(1, 3) {
							toks[j] = lang.TokOf(g, k)
						}
					}
				case 3: // cut off
					toks = toks[:g.N(len(toks))]
				}
				s, _ := lang.Layout(toks, g, g.N(4))
				out = append(out, drv.Txt(s))
				continue
			}
		}
		switch g.W(5, 1, 1) {
		case 0:
			x := lang.NewGen(g)
			x.Stmts, x.Exprs = min(x.Stmts, 10), min(x.Exprs, 50)
			x.Decls = g.P(1, 3)
			s, _ := lang.Layout(lang.ModuleToks(x.Module(), g), g, g.N(4))
			out = append(out, drv.Txt(s))
		case 1:
			out = append(out, drv.Txt(mutated(g, nil)))
		default:
			out = append(out, genText(g).Src)
			if len(out[i]) > 3000 {
				out[i] = out[i][:3000]
			}
		}
	}
	return out
}

func init() {
	reg(&drv.Check{
		ID:    "C16",
		Rule:  "a few related sources, first parsed, printed, exported and walked each by a parser of its own, then by random histories over several parsers, then (kind threads) by eight goroutines under the race detector, and (kind fresh) by a new process per source, for half of them under another time zone, locale, directory and arguments; (kind many) thousands of short modules with ever new names one after the other; every answer must be the same; non-trivial: at least two sources with different trees",
		Quick: 1500, Thorough: 40000, CPUs: 4, Shards: 3,
		Assumptions: []string{"interleavings are sampled by the Go scheduler; each goroutine uses parsers of its own"},
		Gen: func(g *drv.G) *drv.Case {
			c := &drv.Case{Kind: []string{"history", "threads", "fresh", "many"}[g.W(30, 30, 6, 1)], Parts: genSources(g)}
			for i, n := 0, g.R(5, 30); i < n; i++ {
				c.Ints = append(c.Ints, g.N(1<<10))
			}
			return c
		},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			if c.Kind == "many" {
				x.NonTrivial(fmt.Sprint(c.Ints))
				x.Class(c.Kind)
				return many(c.Ints, x)
			}
			var srcs []string
			base := make([]*outcome, len(c.Parts))
			trees := map[string]bool{}
			for _, p := range c.Parts {
				srcs = append(srcs, string(p))
			}
			if c.Kind == "threads" {
				// all at once, before anything was parsed one after the other
				var wg sync.WaitGroup
				errs := make([]error, len(srcs))
				start := make(chan bool)
				for i, src := range srcs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						errs[i] = drv.Safe(func() { base[i] = outcomeOf(src) })
					}()
				}
				close(start)
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						return fmt.Errorf("several goroutines at once: %v", err)
					}
				}
			}
			for i, src := range srcs {
				o := base[i]
				if o == nil {
					o = outcomeOf(src)
					base[i] = o
				}
				trees[o.Tree] = true
				if o.Err == "" {
					x.Class("source accepted")
				} else {
					x.Class("source rejected")
				}
			}
			// once more, behind the other sources
			for i, src := range srcs {
				if err := base[i].diff(outcomeOf(src)); err != nil {
					return fmt.Errorf("source %d, processed twice: %v", i, err)
				}
				if m, err := lang.Read(src); err == nil && base[i].Err == "" && utf8.ValidString(src) {
					a, _ := parse(src)
					if want, got := lang.DumpModule(m, false), DumpTree(&a.ModuleStatement); want != got {
						return fmt.Errorf("the tree of source %d differs from the source, %s", i, firstDiff(want, got))
					}
				}
			}
			if err := history(srcs, base, c.Ints); err != nil {
				return err
			}
			x.Class(c.Kind)
			switch c.Kind {
			case "fresh":
				for i, src := range srcs {
					o, err := solo(src)
					if err != nil {
						return err
					}
					if err := o.diff(outcomeOf(src)); err != nil {
						return fmt.Errorf("source %d, in a process of its own and in one that parsed before: %v", i, err)
					}
				}
			case "threads":
				rounds := 1
				if os.Getenv("VERIF_ROUNDS") != "" {
					rounds = 200
				}
				for r := 0; r < rounds; r++ {
					var wg sync.WaitGroup
					errs := make([]error, 8)
					start := make(chan bool)
					for t := range errs {
						wg.Add(1)
						go func() {
							defer wg.Done()
							<-start
							ops := append(append([]int{}, c.Ints[t%len(c.Ints):]...), c.Ints[:t%len(c.Ints)]...)
							for i := range ops {
								ops[i] += 16 * t
							}
							if e := drv.Safe(func() { errs[t] = history(srcs, base, ops) }); e != nil {
								errs[t] = e
							}
						}()
					}
					close(start)
					wg.Wait()
					for _, err := range errs {
						if err != nil {
							return fmt.Errorf("several goroutines at once: %v", err)
						}
					}
				}
			}
			if len(trees) > 1 {
				x.NonTrivial(strings.Join(srcs, "\x00") + fmt.Sprint(c.Ints))
			}
			return nil
		},
	})
}
