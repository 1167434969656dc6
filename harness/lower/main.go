// The check of C18 in a binary of its own, so that it can be built with the address
// sanitizer (cgo) without slowing the other checks down.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"

	"verif/harness/drv"
	"verif/harness/lang"
)

// want is the specification, written over the bytes.
func want(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n <= 1:
			b.WriteByte(s[i])
		case r >= 'A' && r <= 'Z', r >= 0x410 && r <= 0x42F:
			b.WriteRune(r + 32)
		case r == 0x401:
			b.WriteRune(0x451)
		default:
			b.WriteString(s[i : i+n])
		}
		i += max(n, 1)
	}
	return b.String()
}

var ranges = [][2]rune{{1, 0x7f}, {'A', 'Z'}, {'a', 'z'}, {0x400, 0x460}, {0x410, 0x44f}, {0x80, 0x7ff}, {0x800, 0xd7ff}, {0xe000, 0xffff}, {0x10000, 0x10ffff}}

func gen(g *drv.G) *drv.Case {
	var b []byte
	n := 1 + g.Geo(6, 7, 60)
	for i := 0; i < n; i++ {
		switch g.W(12, 3, 2, 2, 1) {
		case 0:
			r := drv.Pick(g, ranges)
			b = utf8.AppendRune(b, r[0]+rune(g.N(int(r[1]-r[0])+1)))
		case 1: // the heart of the matter, in runs
			for k := g.R(1, 6); k > 0; k-- {
				b = utf8.AppendRune(b, drv.Pick(g, []rune("АБОПРЯЁёаопряAZaz@[`{ЂЏѐџѠ")))
			}
		case 2: // any byte but NUL
			b = append(b, byte(g.R(1, 255)))
		case 3: // the beginning of a sequence
			lead := byte(g.R(0xc0, 0xff))
			b = append(b, lead)
			for k := g.N(4); k > 0; k-- {
				b = append(b, byte(g.R(0x80, 0xbf)))
			}
		case 4: // overlong forms and surrogates of letters
			b = append(b, drv.Pick(g, []string{"\xc1\x81", "\xe0\x90\x90", "\xe0\x90\x81", "\xf0\x80\x90\x90", "\xf0\x80\x81\x81", "\xed\xa0\x80", "\xe0\x81\x81"})...)
		}
	}
	if n, ok := lang.DictSize(g, 100000); ok && g.P(1, 6) {
		var long []byte
		for len(long) < n {
			long = append(long, b...)
		}
		b = long[:max(n, 0)]
	} else if g.P(1, 40) { // long texts, around the sizes buffers have
		n := drv.Pick(g, []int{15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 1023, 1024, 4095, 4096, 8192, 65535, 65536, 100000}) - g.N(3)
		long := make([]byte, 0, n+len(b))
		for len(long) < n {
			long = append(long, b...)
		}
		b = long
		if g.B() {
			b = b[:n]
		}
	}
	return &drv.Case{Src: drv.Txt(b)}
}

func fixed() []*drv.Case {
	var out []*drv.Case
	add := func(s string) { out = append(out, &drv.Case{Src: drv.Txt(s)}) }
	add("")
	// every character of the two alphabets' blocks, alone, doubled and at the end of a text
	for r := rune(1); r < 0x800; r++ {
		add(string(r))
		add("А" + string(r) + "Я" + string(r))
	}
	// every pair of lead byte and next byte at the very end of the string
	for a := 0x80; a < 0x100; a++ {
		add("x" + string([]byte{byte(a)}))
		for b := 1; b < 0x100; b++ {
			add(string([]byte{byte(a), byte(b)}))
			add(string([]byte{0xd0, byte(a), byte(b)}))
		}
	}
	return out
}

func main() {
	lang.LoadDict("/repo")
	drv.Main([]*drv.Check{{
		ID:    "C18",
		Rule:  "every 1- and 2-byte tail and every character below U+0800, then random NUL-free byte strings of up to 100 KB mixing valid text of several scripts with truncated, overlong and stray bytes, compared with a byte-level specification under the address sanitizer; non-trivial: at least one letter to lower-case and at least one other non-ASCII byte",
		Quick: 150000, Thorough: 6000000,
		Fixed:       fixed,
		Gen:         gen,
		Assumptions: []string{"overlong encodings are invalid UTF-8, so their bytes stay unchanged"},
		Run: func(c *drv.Case, x *drv.Ctx) error {
			s := string(c.Src)
			if strings.IndexByte(s, 0) >= 0 {
				return nil
			}
			keep := strings.Clone(s)
			got := fast_tolower.FastToLower(s)
			w := want(s)
			if got != w {
				return fmt.Errorf("FastToLower(%q) = %q, want %q", s, got, w)
			}
			if s != keep {
				return fmt.Errorf("the argument was changed")
			}
			if again := fast_tolower.FastToLower(got); again != got {
				return fmt.Errorf("lower-casing %q again gives %q", got, again)
			}
			if !utf8.ValidString(s) {
				x.Class("invalid UTF-8")
			}
			if w != s {
				x.Class("changed")
				if strings.IndexFunc(w, func(r rune) bool { return r > 127 }) >= 0 {
					x.NonTrivial(s)
				}
			}
			return nil
		},
	}})
}
