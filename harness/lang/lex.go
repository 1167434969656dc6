package lang

import (
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

// Tok is one token of the language.
type Tok struct {
	Kind string // terminal of the grammar
	Text string // spelling
	Val  string // Str: value text; Date: digits
	Off  int    // byte offset of its first byte
	End  int    // byte offset behind it
	Next int    // byte offset of the next token (or of the end of text)
}

// Keywords by small spelling.
var Keywords = map[string]string{
	"процедура": "proc", "перем": "var", "перейти": "goto", "конецпроцедуры": "endproc",
	"знач": "val", "если": "if", "тогда": "then", "иначеесли": "elseif", "иначе": "else",
	"конецесли": "endif", "для": "for", "каждого": "each", "из": "in", "по": "to",
	"цикл": "loop", "конеццикла": "endloop", "прервать": "break", "продолжить": "continue",
	"попытка": "try", "новый": "new", "исключение": "catch", "пока": "while",
	"конецпопытки": "endtry", "функция": "func", "конецфункции": "endfunc", "возврат": "return",
	"вызватьисключение": "throw", "и": "and", "или": "or", "истина": "true", "ложь": "false",
	"неопределено": "undef", "не": "not", "экспорт": "export", "выполнить": "exec",
}

// KwText is the usual spelling of each keyword terminal.
var KwText = map[string]string{
	"proc": "Процедура", "var": "Перем", "goto": "Перейти", "endproc": "КонецПроцедуры",
	"val": "Знач", "if": "Если", "then": "Тогда", "elseif": "ИначеЕсли", "else": "Иначе",
	"endif": "КонецЕсли", "for": "Для", "each": "Каждого", "in": "Из", "to": "По",
	"loop": "Цикл", "endloop": "КонецЦикла", "break": "Прервать", "continue": "Продолжить",
	"try": "Попытка", "new": "Новый", "catch": "Исключение", "while": "Пока",
	"endtry": "КонецПопытки", "func": "Функция", "endfunc": "КонецФункции", "return": "Возврат",
	"throw": "ВызватьИсключение", "and": "И", "or": "ИЛИ", "true": "Истина", "false": "Ложь",
	"undef": "Неопределено", "not": "Не", "export": "Экспорт", "exec": "Выполнить",
}

// Directives are the compilation directives.
var Directives = []string{"&НаКлиенте", "&НаСервере", "&НаСервереБезКонтекста", "&НаКлиентеНаСервереБезКонтекста", "&НаКлиентеНаСервере"}

// Lower maps exactly the letters that keywords are made of.
func Lower(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'A' && r <= 'Z', r >= 'А' && r <= 'Я':
			return r + 32
		case r == 'Ё':
			return 'ё'
		}
		return r
	}, s)
}

// LexError is a lexical fault.
type LexError struct {
	Off int
	Msg string
	End int // where reading could go on
}

func (e *LexError) Error() string { return fmt.Sprintf("offset %d: %s", e.Off, e.Msg) }

func IsLetter(r rune) bool { return r == '_' || unicode.IsLetter(r) && r != utf8.RuneError }
func isWord(r rune) bool   { return IsLetter(r) || r >= '0' && r <= '9' }
func isWS(c byte) bool     { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

type lexer struct {
	s string
	i int
}

func (l *lexer) ws() {
	for l.i < len(l.s) && isWS(l.s[l.i]) {
		l.i++
	}
}

func (l *lexer) line() {
	for l.i < len(l.s) && l.s[l.i] != '\n' {
		l.i++
	}
}

// skip passes whitespace, comments and # lines.
func (l *lexer) skip() {
	for {
		l.ws()
		if strings.HasPrefix(l.s[l.i:], "//") || strings.HasPrefix(l.s[l.i:], "#") {
			l.line()
			continue
		}
		return
	}
}

func (l *lexer) word() string {
	st := l.i
	for l.i < len(l.s) {
		r, n := utf8.DecodeRuneInString(l.s[l.i:])
		if !isWord(r) {
			break
		}
		l.i += n
	}
	return l.s[st:l.i]
}

// Lex splits a text into tokens. On a lexical fault the tokens before it are returned.
func Lex(s string) ([]Tok, *LexError) {
	l := &lexer{s: s}
	var out []Tok
	dot := false
	for {
		l.skip()
		if n := len(out); n > 0 {
			out[n-1].Next = l.i
		}
		if l.i >= len(s) {
			return out, nil
		}
		st := l.i
		t := Tok{Off: st}
		r, n := utf8.DecodeRuneInString(s[l.i:])
		switch {
		case IsLetter(r):
			t.Text = l.word()
			t.Kind = "id"
			if k, ok := Keywords[Lower(t.Text)]; ok && !dot {
				t.Kind = k
			}
		case r >= '0' && r <= '9':
			dots := 0
			for l.i < len(s) && (s[l.i] >= '0' && s[l.i] <= '9' || s[l.i] == '.') {
				if s[l.i] == '.' {
					dots++
				}
				l.i++
			}
			t.Kind, t.Text = "num", s[st:l.i]
			if dots > 1 {
				return out, &LexError{st, "number with several points", l.i}
			}
			if r, _ := utf8.DecodeRuneInString(s[l.i:]); IsLetter(r) {
				return out, &LexError{st, "number glued to a name", l.i}
			}
			if _, err := strconv.ParseFloat(t.Text, 64); err != nil {
				return out, &LexError{st, "number out of range", l.i}
			}
		case r == '"':
			v, err := l.str()
			if err != nil {
				return out, err
			}
			t.Kind, t.Val, t.Text = "str", v, s[st:l.i]
		case r == '\'':
			l.i++
			var ds []byte
			for {
				if l.i >= len(s) {
					return out, &LexError{st, "unterminated date", l.i}
				}
				c := s[l.i]
				l.i++
				if c == '\'' {
					break
				}
				if c == '\n' {
					l.ws()
					for strings.HasPrefix(l.s[l.i:], "//") {
						l.line()
						l.ws()
					}
					if strings.HasPrefix(l.s[l.i:], "|") {
						return out, &LexError{st, "line break in date", l.i} // outside the claims
					}
					return out, &LexError{st, "unterminated date", l.i}
				}
				if c >= '0' && c <= '9' {
					ds = append(ds, c)
				}
			}
			t.Kind, t.Val, t.Text = "date", string(ds), s[st:l.i]
			if !ValidDate(t.Val) {
				return out, &LexError{st, "date names no moment", l.i}
			}
		case r == '&':
			l.i++
			w := "&" + l.word()
			ok := false
			for _, d := range Directives {
				ok = ok || Lower(d) == Lower(w)
			}
			if !ok {
				return out, &LexError{st, "unknown directive", st + 1}
			}
			t.Kind, t.Text = "dir", w
		case r == '~':
			l.i++
			t.Kind, t.Val = "label", l.word()
			t.Text = "~" + t.Val
		case r == '<' || r == '>':
			l.i++
			t.Kind = string(r)
			if l.i < len(s) && (s[l.i] == '=' || r == '<' && s[l.i] == '>') {
				l.i++
				t.Kind = map[string]string{"<=": "le", ">=": "ge", "<>": "ne"}[s[st:l.i]]
			}
			t.Text = s[st:l.i]
		case r == '=':
			l.i++
			t.Kind, t.Text = "eq", "="
		case r < 128 && strings.ContainsRune("/;(),-+*?[]:%.", r):
			l.i++
			t.Kind, t.Text = string(r), string(r)
		default:
			l.i += n
			return out, &LexError{st, Foreign, l.i}
		}
		dot = t.Kind == "."
		t.End = l.i
		t.Next = l.i
		out = append(out, t)
	}
}

// ValidDate tells whether digits name a moment.
func ValidDate(d string) bool {
	if d == "" {
		return false
	}
	if strings.Trim(d, "0") == "" {
		return true
	}
	if len(d) != 8 && len(d) != 12 && len(d) != 14 {
		return false
	}
	d = (d + "000000")[:14]
	n := func(a, b int) int { v, _ := strconv.Atoi(d[a:b]); return v }
	y, mo, da, h, mi, se := n(0, 4), n(4, 6), n(6, 8), n(8, 10), n(10, 12), n(12, 14)
	if mo < 1 || mo > 12 || da < 1 || h > 23 || mi > 59 || se > 59 {
		return false
	}
	last := time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	return da <= last
}

// Foreign is a character no token starts with.
const Foreign = "no token starts here"

// UnclearRegion marks a text the properties say nothing about: a # line behind a comment
// line between the lines of a string.
const UnclearRegion = "region line in string"

// str reads a string literal: pieces on several lines, and adjacent literals, make one.
func (l *lexer) str() (string, *LexError) {
	st := l.i
	var b strings.Builder
	for {
		l.i++ // opening quote
		for {
			if l.i >= len(l.s) {
				return "", &LexError{st, "unterminated string", l.i}
			}
			c := l.s[l.i]
			if c == '"' {
				if l.i+1 < len(l.s) && l.s[l.i+1] == '"' {
					b.WriteString(`""`)
					l.i += 2
					continue
				}
				l.i++
				break
			}
			if c == '\n' {
				l.i++
				for first := true; ; first = false {
					l.ws()
					if !first && strings.HasPrefix(l.s[l.i:], "#") {
						return "", &LexError{st, UnclearRegion, l.i}
					}
					if !strings.HasPrefix(l.s[l.i:], "//") {
						break
					}
					l.line()
				}
				if l.i >= len(l.s) || l.s[l.i] != '|' {
					return "", &LexError{st, "line break in string", l.i}
				}
				b.WriteString("\n|")
				l.i++
				continue
			}
			b.WriteByte(c)
			l.i++
		}
		// an adjacent literal continues this one
		end := l.i
		l.ws()
		if l.i < len(l.s) && l.s[l.i] == '"' {
			continue
		}
		l.i = end
		return b.String(), nil
	}
}

// LineCol is the 1-based line and the 0-based column, in characters, of a byte offset.
func LineCol(s string, off int) (int, int) {
	p := s[:off]
	bol := strings.LastIndexByte(p, '\n') + 1
	return strings.Count(p, "\n") + 1, utf8.RuneCountInString(p[bol:])
}
