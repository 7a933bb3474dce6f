package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// ------------------------------------------------------------ reference decoding

// decFwd decodes the rune at the start of s: an invalid byte is one rune
// (U+FFFD) of one byte; width 0 only for an empty string.
func decFwd(s string) (rune, int) {
	if s == "" {
		return utf8.RuneError, 0
	}
	for k := 1; k <= 4 && k <= len(s); k++ {
		if utf8.ValidString(s[:k]) {
			for _, r := range s[:k] {
				return r, k
			}
		}
	}
	return utf8.RuneError, 1
}

// decBack decodes the rune at the end of s.
func decBack(s string) (rune, int) {
	if s == "" {
		return utf8.RuneError, 0
	}
	for k := 1; k <= 4 && k <= len(s); k++ {
		sub := s[len(s)-k:]
		if utf8.ValidString(sub) && utf8.RuneCountInString(sub) == 1 {
			for _, r := range sub {
				return r, k
			}
		}
	}
	return utf8.RuneError, 1
}

// foldEq: r and o are in the same simple case folding orbit.
func foldEq(a, b rune) bool {
	if a == b {
		return true
	}
	for r := unicode.SimpleFold(a); r != a; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
	}
	return false
}

func runesOf(s string) []rune {
	res := []rune{}
	for s != "" {
		r, w := decFwd(s)
		res = append(res, r)
		s = s[w:]
	}
	return res
}

// foldPrefixLen: bytes of text covered by pat under case folding, -1 if none.
func foldPrefixLen(text, pat string) int {
	n := 0
	for pat != "" {
		p, pw := decFwd(pat)
		r, w := decFwd(text[n:])
		if w == 0 || !foldEq(r, p) {
			return -1
		}
		pat = pat[pw:]
		n += w
	}
	return n
}

func foldSuffixLen(text, pat string) int {
	n := 0
	for pat != "" { // (the patterns are valid UTF-8)
		p, pw := decBack(pat)
		r, w := decBack(text[:len(text)-n])
		if w == 0 || !foldEq(r, p) {
			return -1
		}
		pat = pat[:len(pat)-pw]
		n += w
	}
	return n
}

// --------------------------------------------------------------- text generation

var atoms = []string{
	"a", "b", "c", "A", "B", "z", "Z", "e", "E", "x", "X", "f", "F", "k", "K", "s", "S", "i", "I",
	"0", "1", "2", "7", "8", "9", " ", "\t", "\n", "\r", "\r\n", "\x00", "\x01", "\x7f", "\x1f",
	"-", "+", ".", "_", ",", ":", ";", "/", "\\", "\"", "'", "[", "]", "{", "}", "(", ")", "=", "<", ">", "!", "#", "~",
	"ä", "Ä", "ß", "ẞ", "é", "Σ", "σ", "ς", "K", "ſ", "Ⱥ", "ⱥ", "Dž", "dž", "DŽ", "İ", "ı", "µ", "μ", "Μ",
	"€", "語", "日本", "😀", "𝄞", "\u2028", "\u00a0", "\ufeff", "\ufffd", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "\u0301", "\u0080",
	"\xff", "\x80", "\xbf", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xe2\x82",
	"true", "True", "TRUE", "false", "False", "FALSE", "null", "abc", "ABC", "aab", "-->", "//", "--", "[[", "]]", "]=]", "12", "0x1F", "127", "128", "255", "256",
}

var edgeRunes = []rune{0x20, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xff, 0x100, 0x130, 0x131, 0x17f, 0x660, 0x669, 0x7ff, 0x800, 0xfff, 0x1000, 0x1680, 0x180e,
	0x2000, 0x2009, 0x200a, 0x200b, 0x200d, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x212a, 0x3000, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xd7ff, 0xe000, 0xfeff, 0xff10, 0xff21, 0xfffc, 0xfffd, 0xfffe, 0xffff,
	0x10000, 0x1d7d8, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10ffff}

// wideRune draws a valid rune from all of Unicode: spaces, digits and letters
// of other scripts, encoding borders, neighbours of runes of the source.
func (r *Rng) wideRune() rune {
	for {
		var v rune
		switch r.N(8) {
		case 0, 1:
			v = r.Rune(edgeRunes) + rune(r.In(-1, 1))
		case 2:
			if len(dict.Runes) > 0 {
				v = r.Rune(dict.Runes) + rune(r.In(-1, 1))
			}
		case 3:
			v = rune(r.N(0x80))
		case 4:
			v = rune(r.N(0x800))
		case 5:
			v = rune(r.N(0x3100))
		case 6:
			v = rune(r.N(0x10000))
		default:
			v = rune(r.N(0x110000))
		}
		if utf8.ValidRune(v) {
			return v
		}
	}
}

func (r *Rng) atom() string {
	switch r.N(15) {
	case 4:
		return string(r.wideRune())
	case 0:
		if len(dict.Strs) > 0 {
			return r.Str(dict.Strs)
		}
	case 1:
		if len(dict.Runes) > 0 {
			return string(r.Rune(dict.Runes))
		}
	case 2:
		return string(rune(r.N(0x800)))
	case 3:
		return string([]byte{byte(r.N(256))})
	}
	return r.Str(atoms)
}

// Text draws a text: usually over a small alphabet, so that matches, near
// matches and repetitions are common.
func (r *Rng) Text(max int) string {
	n := r.Size(max)
	if r.P(1, 8) {
		n = r.In(0, 4)
	}
	return r.TextN(n)
}

// TextN draws a text of n atoms.
func (r *Rng) TextN(n int) string {
	k := r.In(1, 7)
	switch r.N(6) {
	case 0:
		k = 40
	case 1:
		k = r.In(1, 2)
	}
	alpha := make([]string, k)
	for i := range alpha {
		alpha[i] = r.atom()
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if r.P(1, 60) {
			b.WriteString(r.atom())
			continue
		}
		b.WriteString(alpha[r.N(k)])
	}
	return b.String()
}

// swapCase replaces runes by other members of their folding orbit.
func (r *Rng) swapCase(s string) string {
	var b strings.Builder
	for s != "" {
		v, w := decFwd(s)
		if v == utf8.RuneError && w == 1 {
			b.WriteString(s[:1])
		} else {
			for i := r.N(4); i > 0; i-- {
				v = unicode.SimpleFold(v)
			}
			b.WriteRune(v)
		}
		s = s[w:]
	}
	return b.String()
}

func (r *Rng) patLen() int {
	if r.P(1, 25) {
		return r.big(5000)
	}
	return r.Size(30)
}

// Pattern draws a pattern related to the text around pos.
func (r *Rng) Pattern(text string, pos int) string {
	p := ""
	switch r.N(12) {
	case 0, 1, 2:
		n := imin(len(text)-pos, r.patLen())
		p = text[pos : pos+n]
	case 3, 4, 5:
		n := imin(pos, r.patLen())
		p = text[pos-n : pos]
	case 6, 7:
		if len(text) > 0 {
			a := r.N(len(text))
			b := imin(len(text), a+r.patLen())
			p = text[a:b]
		}
	case 8:
		p = r.atom()
	case 9:
		p = r.Text(6)
	case 10:
		return ""
	default:
		p = text[pos:] + r.atom()
	}
	switch r.N(6) {
	case 0:
		p = r.swapCase(p)
	case 1:
		p = r.swapCase(p) + r.atom()
	case 2:
		if r.P(1, 3) {
			p = r.atom() + p
		}
	}
	return p
}

// RuneNear draws a rune, often one that occurs near pos.
func (r *Rng) RuneNear(text string, pos int) rune {
	switch r.N(8) {
	case 0, 1, 2:
		v, _ := decFwd(text[pos:])
		return v
	case 3, 4:
		v, _ := decBack(text[:pos])
		return v
	case 5:
		if len(text) > 0 {
			v, _ := decFwd(text[r.N(len(text)):])
			return v
		}
	case 6:
		return rune(r.AnyInt(300))
	}
	v, _ := decFwd(r.atom())
	return v
}

func (r *Rng) Position(text string) int {
	switch r.N(5) {
	case 0:
		return 0
	case 1:
		return len(text)
	}
	return r.In(0, len(text))
}
