package lang

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	goparser "go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"verif/harness/drv"
)

// A dictionary for the generators, as fuzzers keep one: the constants of the parser's
// source that the source known to the harness does not have. Where there are any, sizes,
// words and values are drawn from them now and then. They say nothing about what is right;
// without them the generators work as if there were none.

//go:embed dict.txt
var knownConsts string

var (
	DictInts  []int
	DictWords []string
	DictBig   []int // numbers too large for the sizes of lists
)

// Consts lists the constants in the Go files of a directory, with repetitions.
func Consts(dir string) (out []string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		fs := token.NewFileSet()
		file, err := goparser.ParseFile(fs, f, src, 0)
		if err != nil {
			continue
		}
		tables := filepath.Base(f) == "y.go"
		ast.Inspect(file, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				if tables {
					return false
				}
			case *ast.IndexExpr:
				if tables {
					return false
				}
			case *ast.CaseClause:
				if tables {
					for _, s := range v.Body {
						ast.Inspect(s, func(n ast.Node) bool { return collect(n, tables, &out) })
					}
					return false
				}
			}
			return collect(n, tables, &out)
		})
	}
	// C code in comments
	files, _ = filepath.Glob(filepath.Join(dir, "*", "*.[gc]*"))
	for _, f := range files {
		src, _ := os.ReadFile(f)
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		for _, s := range cNumber.FindAllString(string(src), -1) {
			if n, err := strconv.ParseInt(s, 0, 40); err == nil {
				out = append(out, fmt.Sprint("i", n))
			}
		}
	}
	sort.Strings(out)
	return out
}

var cNumber = regexp.MustCompile(`\b(0[xX][0-9a-fA-F]+|[0-9]+)\b`)

func collect(n ast.Node, tables bool, out *[]string) bool {
	e, ok := n.(ast.Expr)
	if !ok {
		return true
	}
	if _, ok := n.(*ast.IndexExpr); ok && tables {
		return false
	}
	v := value(e)
	if v == nil {
		return true
	}
	switch v.Kind() {
	case constant.Int:
		if _, isLit := e.(*ast.BasicLit); isLit && e.(*ast.BasicLit).Kind == token.CHAR {
			i, _ := constant.Int64Val(v)
			*out = append(*out, "s"+strconv.Quote(string(rune(i))))
		} else {
			*out = append(*out, "i"+v.ExactString())
		}
	case constant.Float:
		f, _ := constant.Float64Val(v)
		*out = append(*out, "f"+strconv.FormatFloat(f, 'f', -1, 64))
	case constant.String:
		*out = append(*out, "s"+strconv.Quote(constant.StringVal(v)))
	}
	_, lit := e.(*ast.BasicLit)
	return !lit
}

// value is the value of an expression made of literals.
func value(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return value(x.X)
	case *ast.BinaryExpr:
		a, b := value(x.X), value(x.Y)
		if a == nil || b == nil || a.Kind() != b.Kind() {
			return nil
		}
		switch x.Op {
		case token.SHL:
			n, _ := constant.Uint64Val(b)
			if n > 40 {
				return nil
			}
			return constant.Shift(a, x.Op, uint(n))
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}

// LoadDict sets up the dictionary from the parser's source.
func LoadDict(root string) {
	if r := os.Getenv("VERIF_SOURCE"); r != "" {
		root = r
	}
	defer func() {
		// The dictionary only enriches the inputs: a check goes on with what there is of it.
		if x := recover(); x != nil {
			fmt.Fprintln(os.Stderr, "dictionary:", x)
		}
	}()
	known := map[string]int{}
	for _, l := range strings.Split(knownConsts, "\n") {
		known[l]++
	}
	seenI, seenW := map[int]bool{}, map[string]bool{}
	word := func(s string) {
		if s != "" && len(s) < 200 && !seenW[s] && utf8.ValidString(s) {
			seenW[s] = true
			DictWords = append(DictWords, s)
		}
	}
	date := func(s string) {
		if len(s) >= 8 && s[:4] != "0000" {
			if _, err := time.Parse("20060102", s[:8]); err == nil {
				dictDates = append(dictDates, s[:8])
			}
		}
	}
	for _, c := range Consts(filepath.Join(root, "ast")) {
		if known[c] > 0 {
			known[c]--
			continue
		}
		if c[0] == 'i' {
			n, err := strconv.Atoi(c[1:])
			if err == nil && n > 200000 {
				dictNums = append(dictNums, c[1:])
				date(c[1:])
				if n <= 40<<20 {
					DictBig = append(DictBig, n)
				}
			}
			if err == nil && n > 2 && n <= 200000 && !seenI[n] {
				seenI[n] = true
				DictInts = append(DictInts, n)
			}
			continue
		}
		if c[0] == 'f' {
			if n := strings.TrimPrefix(c[1:], "-"); len(n) <= 60 && strings.Trim(n, "0123456789.") == "" {
				dictNums = append(dictNums, n)
			}
			continue
		}
		s, err := strconv.Unquote(c[1:])
		if err != nil || s == "" {
			continue
		}
		word(s)
		if len(s) <= 60 && strings.Trim(s, "0123456789.") == "" && strings.Count(s, ".") < 2 && s[0] != '.' && s[len(s)-1] != '.' {
			dictNums = append(dictNums, s)
		}
		if strings.Trim(s, "0123456789") == "" {
			date(s)
		}
		for _, f := range strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" \t\r\n%:;,.()[]{}|", r) }) {
			if len(seenW) < 60 {
				word(f)
			}
		}
	}
	sort.Ints(DictInts)
	sort.Strings(DictWords)
	for _, w := range DictWords {
		if isName(w) {
			dictNames = append(dictNames, w)
		}
		if len(DictWords) < 100 {
			commentText = append(commentText, oneLine(w))
		}
	}
	if os.Getenv("VERIF_DICT") != "" {
		fmt.Fprintln(os.Stderr, "dictionary:", DictInts, DictWords)
	}
}

var dictNames, dictNums, dictDates []string

// dictName is a name of the dictionary, as it stands, in other letter case, or with something
// before or behind it.
func (g *Gen) dictName() string {
	w := drv.Pick(g.G, dictNames)
	n := w
	switch g.N(8) {
	case 0:
		n = strings.ToUpper(w)
	case 1:
		n = Lower(w)
	case 2, 3:
		n = w + drv.Pick(g.G, []string{"1", "а", "_", "Если", "z", w})
	case 4:
		n = drv.Pick(g.G, []string{"_", "а", "Не", "z"}) + w
	}
	if isName(n) {
		return n
	}
	return w
}

func isName(w string) bool {
	toks, le := Lex(w)
	return le == nil && len(toks) == 1 && toks[0].Kind == "id" && toks[0].Text == w
}

func oneLine(w string) string { return strings.NewReplacer("\n", " ", "\r", " ").Replace(w) }

// DictSize draws a size near one of the dictionary's numbers, at most max.
func DictSize(g *drv.G, max int) (int, bool) {
	if len(DictInts) == 0 {
		return 0, false
	}
	n := drv.Pick(g, DictInts) + g.R(-1, 2)
	return n, n <= max
}
