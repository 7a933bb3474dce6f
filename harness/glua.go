package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// --------------------------------------------------------------- Lua 5.4 tokens

type luaKind int

const (
	lkKeyword luaKind = iota
	lkName
	lkNumber
	lkString
	lkSymbol
	lkComment
	lkBad
)

type luaTok struct {
	k luaKind
	s string
}

var luaKeywords = strings.Fields("and break do else elseif end false for function goto if in local nil not or repeat return then true until while")

var luaKw = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range luaKeywords {
		m[k] = true
	}
	return m
}()

// longest first
var luaSymbols = strings.Fields("... .. << >> // == ~= <= >= :: + - * / % ^ # & ~ | < > = ( ) { } [ ] ; : , .")

func isAlpha(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isNum(c byte) bool   { return c >= '0' && c <= '9' }
func isXNum(c byte) bool {
	return isNum(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// luaLong: "[", level, "[" at p; returns the end behind the closing bracket.
func luaLong(s string, p int) (int, bool) {
	if p >= len(s) || s[p] != '[' {
		return -1, false
	}
	q := p + 1
	for q < len(s) && s[q] == '=' {
		q++
	}
	if q >= len(s) || s[q] != '[' {
		return -1, false
	}
	closer := "]" + s[p+1:q] + "]"
	i := strings.Index(s[q+1:], closer)
	if i < 0 {
		return -1, true
	}
	return q + 1 + i + len(closer), true
}

func luaNumberEnd(s string, p int) (int, bool) {
	// as the lexer of Lua: take everything that looks like a part of a number, then check it
	q := p
	exp := "eE"
	if s[q] == '0' && q+1 < len(s) && (s[q+1] == 'x' || s[q+1] == 'X') {
		exp = "pP"
		q += 2
	}
	for q < len(s) {
		if strings.IndexByte(exp, s[q]) >= 0 {
			q++
			if q < len(s) && (s[q] == '+' || s[q] == '-') {
				q++
			}
		} else if isXNum(s[q]) || s[q] == '.' || isAlpha(s[q]) {
			q++
		} else {
			break
		}
	}
	return q, validLuaNumber(s[p:q])
}

func validLuaNumber(n string) bool {
	digit, exp := isNum, "eE"
	if len(n) > 1 && n[0] == '0' && (n[1] == 'x' || n[1] == 'X') {
		n = n[2:]
		digit, exp = isXNum, "pP"
	}
	i, d := 0, 0
	for i < len(n) && digit(n[i]) {
		i++
		d++
	}
	if i < len(n) && n[i] == '.' {
		i++
		for i < len(n) && digit(n[i]) {
			i++
			d++
		}
	}
	if d == 0 {
		return false
	}
	if i < len(n) && strings.IndexByte(exp, n[i]) >= 0 {
		i++
		if i < len(n) && (n[i] == '+' || n[i] == '-') {
			i++
		}
		j := i
		for i < len(n) && isNum(n[i]) {
			i++
		}
		if i == j {
			return false
		}
	}
	return i == len(n)
}

func luaStringEnd(s string, p int) int {
	q := s[p]
	for i := p + 1; i < len(s); {
		switch s[i] {
		case q:
			return i + 1
		case '\n', '\r':
			return -1
		case '\\':
			i++
			if i >= len(s) {
				return -1
			}
			switch c := s[i]; {
			case c == 'z':
				i++
				for i < len(s) && strings.IndexByte(" \t\r\n\v\f", s[i]) >= 0 {
					i++
				}
			case c == 'x':
				if i+2 >= len(s) || !isXNum(s[i+1]) || !isXNum(s[i+2]) {
					return -1
				}
				i += 3
			case c == 'u':
				j := i + 2
				if i+1 >= len(s) || s[i+1] != '{' {
					return -1
				}
				for j < len(s) && isXNum(s[j]) {
					j++
				}
				if j == i+2 || j >= len(s) || s[j] != '}' {
					return -1
				}
				i = j + 1
			case isNum(c):
				n := 0
				for k := 0; k < 3 && i < len(s) && isNum(s[i]); k++ {
					n = n*10 + int(s[i]-'0')
					i++
				}
				if n > 255 {
					return -1
				}
			case c == '\r' && i+1 < len(s) && s[i+1] == '\n':
				i += 2
			case strings.IndexByte("abfnrtv\\\"'\n", c) >= 0:
				i++
			default:
				return -1
			}
		default:
			i++
		}
	}
	return -1
}

// luaLex is an independent lexer; white space is left out.
func luaLex(s string) []luaTok {
	res := []luaTok{}
	for p := 0; p < len(s); {
		c := s[p]
		if strings.IndexByte(" \t\r\n", c) >= 0 {
			p++
			continue
		}
		add := func(k luaKind, e int) {
			res = append(res, luaTok{k, s[p:e]})
			p = e
		}
		switch {
		case strings.HasPrefix(s[p:], "--"):
			if e, open := luaLong(s, p+2); open {
				if e < 0 {
					add(lkBad, len(s))
				} else {
					add(lkComment, e)
				}
			} else if i := strings.IndexByte(s[p:], '\n'); i >= 0 {
				add(lkComment, p+i)
			} else {
				add(lkComment, len(s))
			}
		case isAlpha(c):
			e := p
			for e < len(s) && (isAlpha(s[e]) || isNum(s[e])) {
				e++
			}
			if luaKw[s[p:e]] {
				add(lkKeyword, e)
			} else {
				add(lkName, e)
			}
		case isNum(c) || c == '.' && p+1 < len(s) && isNum(s[p+1]):
			e, ok := luaNumberEnd(s, p)
			if ok {
				add(lkNumber, e)
			} else {
				add(lkBad, e)
			}
		case c == '"' || c == '\'':
			if e := luaStringEnd(s, p); e > 0 {
				add(lkString, e)
			} else {
				add(lkBad, len(s))
			}
		case c == '[' && func() bool { _, o := luaLong(s, p); return o }():
			if e, _ := luaLong(s, p); e > 0 {
				add(lkString, e)
			} else {
				add(lkBad, len(s))
			}
		default:
			e := -1
			for _, y := range luaSymbols {
				if strings.HasPrefix(s[p:], y) {
					e = p + len(y)
					break
				}
			}
			if e < 0 {
				add(lkBad, p+1)
			} else {
				add(lkSymbol, e)
			}
		}
	}
	return res
}

// ------------------------------------------------------------- Lua 5.4 programs

type luaSyntax struct{}

// luaParser is an independent recursive descent parser over tokens.
type luaParser struct {
	l []luaTok
	p int
}

func (p *luaParser) fail() { panic(luaSyntax{}) }
func (p *luaParser) is(s string) bool {
	return p.p < len(p.l) && p.l[p.p].s == s && (p.l[p.p].k == lkKeyword || p.l[p.p].k == lkSymbol)
}
func (p *luaParser) kind(k luaKind) bool { return p.p < len(p.l) && p.l[p.p].k == k }
func (p *luaParser) opt(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *luaParser) need(s string) {
	if !p.opt(s) {
		p.fail()
	}
}
func (p *luaParser) name() {
	if !p.kind(lkName) {
		p.fail()
	}
	p.p++
}

func (p *luaParser) blockEnd() bool {
	return p.p >= len(p.l) || p.is("end") || p.is("else") || p.is("elseif") || p.is("until")
}

func (p *luaParser) block() {
	for !p.blockEnd() {
		if p.is("return") {
			p.p++
			if !p.blockEnd() && !p.is(";") {
				p.explist()
			}
			p.opt(";")
			return
		}
		p.stat()
	}
}

func (p *luaParser) body() {
	p.need("(")
	if !p.is(")") {
		for {
			if p.opt("...") {
				break
			}
			p.name()
			if !p.opt(",") {
				break
			}
		}
	}
	p.need(")")
	p.block()
	p.need("end")
}

func (p *luaParser) stat() {
	switch {
	case p.opt(";"):
	case p.opt("::"):
		p.name()
		p.need("::")
	case p.opt("break"):
	case p.opt("goto"):
		p.name()
	case p.opt("do"):
		p.block()
		p.need("end")
	case p.opt("while"):
		p.exp()
		p.need("do")
		p.block()
		p.need("end")
	case p.opt("repeat"):
		p.block()
		p.need("until")
		p.exp()
	case p.opt("if"):
		p.exp()
		p.need("then")
		p.block()
		for p.opt("elseif") {
			p.exp()
			p.need("then")
			p.block()
		}
		if p.opt("else") {
			p.block()
		}
		p.need("end")
	case p.opt("for"):
		p.name()
		if p.opt("=") {
			p.exp()
			p.need(",")
			p.exp()
			if p.opt(",") {
				p.exp()
			}
		} else {
			for p.opt(",") {
				p.name()
			}
			p.need("in")
			p.explist()
		}
		p.need("do")
		p.block()
		p.need("end")
	case p.opt("function"):
		p.name()
		for p.opt(".") {
			p.name()
		}
		if p.opt(":") {
			p.name()
		}
		p.body()
	case p.opt("local"):
		if p.opt("function") {
			p.name()
			p.body()
			return
		}
		for {
			p.name()
			if p.opt("<") {
				p.name()
				p.need(">")
			}
			if !p.opt(",") {
				break
			}
		}
		if p.opt("=") {
			p.explist()
		}
	default:
		k := p.suffixed()
		if p.is("=") || p.is(",") {
			for {
				if k != 'v' {
					p.fail()
				}
				if !p.opt(",") {
					break
				}
				k = p.suffixed()
			}
			p.need("=")
			p.explist()
		} else if k != 'c' {
			p.fail()
		}
	}
}

func (p *luaParser) explist() {
	p.exp()
	for p.opt(",") {
		p.exp()
	}
}

// suffixed returns 'v' for a variable, 'c' for a call, 'p' for an expression in parentheses.
func (p *luaParser) suffixed() byte {
	k := byte('v')
	if p.opt("(") {
		p.exp()
		p.need(")")
		k = 'p'
	} else {
		p.name()
	}
	for {
		switch {
		case p.opt("."):
			p.name()
			k = 'v'
		case p.opt("["):
			p.exp()
			p.need("]")
			k = 'v'
		case p.opt(":"):
			p.name()
			p.args()
			k = 'c'
		case p.is("(") || p.is("{") || p.kind(lkString):
			p.args()
			k = 'c'
		default:
			return k
		}
	}
}

func (p *luaParser) args() {
	switch {
	case p.opt("("):
		if !p.is(")") {
			p.explist()
		}
		p.need(")")
	case p.is("{"):
		p.table()
	case p.kind(lkString):
		p.p++
	default:
		p.fail()
	}
}

func (p *luaParser) table() {
	p.need("{")
	for !p.is("}") {
		if p.opt("[") {
			p.exp()
			p.need("]")
			p.need("=")
			p.exp()
		} else if p.kind(lkName) && p.p+1 < len(p.l) && p.l[p.p+1].k == lkSymbol && p.l[p.p+1].s == "=" {
			p.p += 2
			p.exp()
		} else {
			p.exp()
		}
		if !p.opt(",") && !p.opt(";") {
			break
		}
	}
	p.need("}")
}

var luaBin = strings.Fields("or and < > <= >= ~= == | ~ & << >> .. + - * / // % ^")

func (p *luaParser) exp() {
	for p.opt("-") || p.opt("not") || p.opt("#") || p.opt("~") {
	}
	switch {
	case p.opt("nil") || p.opt("true") || p.opt("false") || p.opt("..."):
	case p.kind(lkNumber) || p.kind(lkString):
		p.p++
	case p.opt("function"):
		p.body()
	case p.is("{"):
		p.table()
	default:
		p.suffixed()
	}
	for _, o := range luaBin {
		if p.opt(o) {
			p.exp()
			return
		}
	}
}

func luaValid(l []luaTok) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(luaSyntax); !is {
				panic(x)
			}
			ok = false
		}
	}()
	for _, t := range l {
		if t.k == lkBad {
			return false
		}
	}
	p := &luaParser{l: l}
	p.block()
	return p.p == len(l)
}

// -------------------------------------------------------------------- generator

type luaSpan struct {
	rule     string
	from, to int // tokens from..to-1
}

type luaGen struct {
	t     *T
	toks  []luaTok
	spans []luaSpan
	fuel  int
}

func (g *luaGen) put(k luaKind, s string) { g.toks = append(g.toks, luaTok{k, s}); g.fuel-- }
func (g *luaGen) kw(s string)             { g.put(lkKeyword, s) }
func (g *luaGen) sym(s string)            { g.put(lkSymbol, s) }
func (g *luaGen) span(rule string, f func()) {
	a := len(g.toks)
	f()
	g.spans = append(g.spans, luaSpan{rule, a, len(g.toks)})
}

var luaNames = []string{"a", "b", "x", "y1", "_", "_G", "foo", "ends", "end_", "andy", "or1", "nott", "ifx", "function1", "nil_", "do2", "in_", "truex", "not_", "A", "Z9", "e1", "x0", "until1", "breaks", "gotox", "returning", "locals", "thenx", "elseifx", "whiles", "repeat1", "fors", "falsey"}

func (t *T) luaName() string {
	if t.P(2, 3) {
		return t.Str(luaNames)
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	const rest = first + "0123456789"
	var b strings.Builder
	switch t.N(5) {
	case 0: // a keyword and more
		b.WriteString(t.Str(luaKeywords))
		b.WriteByte(rest[t.N(len(rest))])
	case 1: // a keyword with another case or cut off
		k := t.Str(luaKeywords)
		if t.P(1, 2) {
			b.WriteString(strings.ToUpper(k[:1]) + k[1:])
		} else {
			b.WriteString(k[:len(k)-1])
		}
	default:
		b.WriteByte(first[t.N(len(first))])
	}
	for i := t.tail(t.few(3, 40), 600); i > 0; i-- {
		b.WriteByte(rest[t.N(len(rest))])
	}
	for _, k := range luaKeywords {
		if b.String() == k {
			return "x" + k
		}
	}
	return b.String()
}

func (t *T) luaNum() string {
	if t.P(1, 2) {
		return t.Str(luaNums)
	}
	digits := func(set string, min int) string {
		var b strings.Builder
		for i := min + t.tail(t.few(3, 20), 300); i > 0; i-- {
			b.WriteByte(set[t.N(len(set))])
		}
		return b.String()
	}
	dec, hex := "0123456789", "0123456789abcdefABCDEF"
	exp := func(e string) string {
		return t.Str(strings.Split(e, "")) + t.Str([]string{"", "+", "-"}) + digits(dec, 1)
	}
	set, pre, e := dec, "", "eE"
	if t.P(1, 2) {
		set, pre, e = hex, t.Str([]string{"0x", "0X"}), "pP"
	}
	s := pre
	switch t.N(4) {
	case 0:
		s += digits(set, 1)
	case 1:
		s += digits(set, 1) + "."
	case 2:
		s += digits(set, 1) + "." + digits(set, 1)
	default:
		s += "." + digits(set, 1)
	}
	if t.P(1, 2) {
		s += exp(e)
	}
	return s
}

func (t *T) luaEscape() string {
	const hex = "0123456789abcdefABCDEF"
	switch t.N(4) {
	case 0:
		return "\\x" + string(hex[t.N(len(hex))]) + string(hex[t.N(len(hex))])
	case 1:
		return fmt.Sprintf([]string{"\\%d", "\\%02d", "\\%03d"}[t.N(3)], t.N(256))
	case 2:
		s := "\\u{"
		if t.P(1, 4) {
			s += strings.Repeat("0", t.N(9))
		}
		for i := t.In(1, 7); i > 0; i-- {
			s += string(hex[t.N(len(hex))])
		}
		return s + "}"
	}
	return "\\" + string("abfnrtv\"'\\"[t.N(10)])
}

func (g *luaGen) name() { g.put(lkName, g.t.luaName()) }

var luaNums = []string{"0", "1", "42", "3.", ".5", "3.14", "1e5", "1E-5", "2e+3", ".5e1", "0x1F", "0XaB", "0x.8", "0x1.8p3", "0x1P-2", "0xA.", "007", "1.e3", "9007199254740993", "0x7fffffffffffffff", "0xep1"}

func (g *luaGen) longBracket(text string) string {
	lvl := strings.Repeat("=", g.t.tail(g.t.Size(4), 300))
	var b strings.Builder
	for i := g.t.tail(g.t.Size(8), 600); i > 0; i-- {
		switch g.t.N(5) {
		case 0:
			b.WriteString("]" + strings.Repeat("=", g.t.N(5)) + g.t.Str([]string{"]", "", "x"}))
		case 1:
			b.WriteString("[" + strings.Repeat("=", g.t.N(5)) + g.t.Str([]string{"[", "", "]"}))
		case 2:
			b.WriteString(g.t.Str([]string{"\n", "\r\n", "\\", "\"", "'", "--", "]", "\xff", "ä", string(g.t.wideRune())}))
		default:
			b.WriteString(g.t.Str([]string{"a", "text", " ", "=", "end"}))
		}
	}
	body := b.String()
	closer := "]" + lvl + "]"
	for i := strings.Index(body+closer, closer); i >= 0 && i < len(body); i = strings.Index(body+closer, closer) {
		body = body[:i] + "_" + body[i+1:]
	}
	return text + "[" + lvl + "[" + body + closer
}

// a rune that stands for itself in a quoted string
func (t *T) luaStrRune(q string) string {
	r := t.wideRune()
	if strings.ContainsRune("\\\r\n\"'", r) {
		r = 'w'
	}
	return string(r)
}

func (g *luaGen) strLit() string {
	if g.t.P(1, 4) {
		return g.longBracket("")
	}
	q := g.t.Str([]string{`"`, `'`})
	var b strings.Builder
	b.WriteString(q)
	for i := g.t.tail(g.t.Size(10), 600); i > 0; i-- {
		switch g.t.N(6) {
		case 5:
			if g.t.P(1, 8) {
				b.WriteString("\\z")
				for k := g.t.In(0, 5); k > 0; k-- {
					b.WriteString(g.t.Str([]string{" ", "\t", "\r", "\n", "\v", "\f", "\r\n"}))
				}
				break
			}
			b.WriteString(g.t.luaEscape())
		case 0:
			b.WriteString(g.t.Str([]string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`, `\"`, `\'`, `\x41`, `\xfF`, `\0`, `\65`, `\065`, `\255`, `\u{48}`, `\u{10FFFF}`, "\\\n", "\\\r\n", "\\z", "\\z \n\t ", "\\z\r\n"}))
		case 1:
			b.WriteString(g.t.Str([]string{"--", "[[", "]]", "\t", "ä", "😀", "\xff", "\x00", "//", "end", " ", "\u2028", "-", g.t.luaStrRune(q), g.t.luaStrRune(q)}))
		case 2:
			if q == `"` {
				b.WriteString("'")
			} else {
				b.WriteString(`"`)
			}
		default:
			b.WriteString(g.t.Str([]string{"a", "1", "x y", "{", "}", "=", "#"}))
		}
	}
	b.WriteString(q)
	s := b.String()
	if luaStringEnd(s, 0) != len(s) { // e.g. \25 followed by 6
		return q + "a" + q
	}
	return s
}

func (g *luaGen) str() { g.put(lkString, g.strLit()) }

func (g *luaGen) exp(d int) {
	t := g.t
	if t.P(1, 6) {
		g.put1(t.Str([]string{"-", "not", "#", "~"}))
		g.exp(d - 1)
		return
	}
	k := t.N(12)
	if d <= 0 || g.fuel <= 0 {
		k = t.N(6)
	}
	switch k {
	case 0:
		g.kw(t.Str([]string{"nil", "true", "false"}))
	case 1:
		g.put(lkNumber, t.luaNum())
	case 2:
		g.str()
	case 3:
		g.name()
	case 4:
		g.sym("...")
	case 5:
		g.name()
		if d > 0 {
			g.suffixes(d-1, t.N(3))
		}
	case 6, 7:
		g.primary(d - 2)
		g.suffixes(d-2, t.N(3))
	case 8:
		g.span("funcdef", func() { g.kw("function"); g.body(d - 2) })
	case 9, 10:
		g.table(d - 1)
	default:
		g.name()
	}
	if t.P(1, 4) && g.fuel > 0 {
		g.put1(t.Str(luaBin))
		g.exp(d - 1)
	}
}

func (g *luaGen) put1(s string) {
	if isAlpha(s[0]) {
		g.kw(s)
	} else {
		g.sym(s)
	}
}

func (g *luaGen) primary(d int) {
	if g.t.P(1, 3) && d > 0 {
		g.sym("(")
		g.exp(d - 1)
		g.sym(")")
	} else {
		g.name()
	}
}

// suffixes: index, field, call
func (g *luaGen) suffixes(d, n int) {
	for ; n > 0; n-- {
		switch g.t.N(5) {
		case 0, 1:
			g.field()
		case 2:
			g.index(d)
		default:
			g.call(d)
		}
	}
}

func (g *luaGen) field()      { g.sym("."); g.name() }
func (g *luaGen) index(d int) { g.sym("["); g.exp(d - 1); g.sym("]") }
func (g *luaGen) call(d int) {
	if g.t.P(1, 3) {
		g.sym(":")
		g.name()
	}
	switch g.t.N(4) {
	case 0:
		g.str()
	case 1:
		g.table(d - 1)
	default:
		g.sym("(")
		if g.t.P(2, 3) {
			g.explist(d-1, 3)
		}
		g.sym(")")
	}
}

func (g *luaGen) explist(d, max int) {
	g.exp(d)
	for i := g.t.few(max-1, 7); i > 0; i-- {
		if g.fuel <= 0 {
			break
		}
		g.sym(",")
		g.exp(d)
	}
}

func (g *luaGen) table(d int) {
	g.span("tableconstructor", func() {
		g.sym("{")
		n := g.t.few(3, 9)
		for i := 0; i < n; i++ {
			switch {
			case g.t.P(1, 3):
				g.name()
				g.sym("=")
				g.exp(d - 1)
			case g.t.P(1, 3):
				g.sym("[")
				g.exp(d - 1)
				g.sym("]")
				g.sym("=")
				g.exp(d - 1)
			default:
				g.exp(d - 1)
			}
			if i+1 < n || g.t.P(1, 3) {
				g.sym(g.t.Str([]string{",", ";"}))
			}
		}
		g.sym("}")
	})
}

func (g *luaGen) body(d int) {
	g.sym("(")
	n := g.t.few(3, 9)
	for i := 0; i < n; i++ {
		g.name()
		if i+1 < n {
			g.sym(",")
		}
	}
	if g.t.P(1, 4) {
		if n > 0 {
			g.sym(",")
		}
		g.sym("...")
	}
	g.sym(")")
	g.block(d-1, 2)
	g.kw("end")
}

func (g *luaGen) block(d, max int) {
	n := g.t.N(max + 1)
	for i := 0; i < n && g.fuel > 0; i++ {
		a := len(g.toks)
		ns := len(g.spans)
		g.stat(d)
		if i > 0 && g.toks[a].s == "(" {
			// would be read as a call of the statement before
			g.toks = append(g.toks[:a:a], append([]luaTok{{lkSymbol, ";"}}, g.toks[a:]...)...)
			for j := ns; j < len(g.spans); j++ {
				g.spans[j].from++
				g.spans[j].to++
			}
		}
	}
	if g.t.P(1, 5) {
		g.span("retstat", func() {
			g.kw("return")
			if g.t.P(2, 3) {
				g.explist(d, 2)
			}
			if g.t.P(1, 3) {
				g.sym(";")
			}
		})
	}
}

func (g *luaGen) lval(d int) {
	if g.t.P(1, 2) {
		g.name()
		return
	}
	g.primary(d - 1)
	g.suffixes(d-1, g.t.N(2))
	if g.t.P(1, 2) {
		g.field()
	} else {
		g.index(d)
	}
}

func (g *luaGen) stat(d int) {
	t := g.t
	k := t.N(20)
	if d <= 0 || g.fuel <= 0 {
		k = t.N(12)
	}
	switch k {
	case 0:
		g.sym(";")
	case 1:
		g.span("label", func() { g.sym("::"); g.name(); g.sym("::") })
	case 2:
		g.span("break", func() { g.kw("break") })
	case 3:
		g.span("goto", func() { g.kw("goto"); g.name() })
	case 4, 5:
		g.span("localatt", func() {
			g.kw("local")
			for i := t.few(2, 6); i >= 0; i-- {
				g.name()
				if t.P(1, 4) {
					g.sym("<")
					g.put(lkName, t.Str([]string{"const", "close"}))
					g.sym(">")
				}
				if i > 0 {
					g.sym(",")
				}
			}
			if t.P(2, 3) {
				g.sym("=")
				g.explist(d, 2)
			}
		})
	case 6, 7, 8:
		g.lval(d)
		for i := t.few(1, 5); i > 0; i-- {
			g.sym(",")
			g.lval(d)
		}
		g.sym("=")
		g.explist(d, 2)
	case 9, 10, 11:
		// a call statement
		g.span("funccall", func() {
			g.primary(d)
			g.suffixes(d-1, t.N(3))
			g.call(d)
		})
	case 12:
		g.span("do", func() { g.kw("do"); g.block(d-1, 2); g.kw("end") })
	case 13:
		g.span("while", func() { g.kw("while"); g.exp(d - 1); g.kw("do"); g.block(d-1, 2); g.kw("end") })
	case 14:
		g.span("repeat", func() { g.kw("repeat"); g.block(d-1, 2); g.kw("until"); g.exp(d - 1) })
	case 15:
		g.span("ifelse", func() {
			g.kw("if")
			g.exp(d - 1)
			g.kw("then")
			g.block(d-1, 2)
			for i := t.few(1, 4); i > 0; i-- {
				g.kw("elseif")
				g.exp(d - 1)
				g.kw("then")
				g.block(d-1, 2)
			}
			if t.P(1, 2) {
				g.kw("else")
				g.block(d-1, 2)
			}
			g.kw("end")
		})
	case 16:
		g.span("for", func() {
			g.kw("for")
			g.name()
			g.sym("=")
			g.exp(d - 1)
			g.sym(",")
			g.exp(d - 1)
			if t.P(1, 3) {
				g.sym(",")
				g.exp(d - 1)
			}
			g.kw("do")
			g.block(d-1, 2)
			g.kw("end")
		})
	case 17:
		g.span("foreach", func() {
			g.kw("for")
			g.name()
			for i := t.few(2, 6); i > 0; i-- {
				g.sym(",")
				g.name()
			}
			g.kw("in")
			g.explist(d-1, 2)
			g.kw("do")
			g.block(d-1, 2)
			g.kw("end")
		})
	case 18:
		g.span("func", func() {
			g.kw("function")
			g.span("funcname", func() {
				g.name()
				for i := t.few(2, 6); i > 0; i-- {
					g.field()
				}
				if t.P(1, 3) {
					g.sym(":")
					g.name()
				}
			})
			g.body(d - 1)
		})
	default:
		g.span("localfunc", func() { g.kw("local"); g.kw("function"); g.name(); g.body(d - 1) })
	}
}

func (g *luaGen) comment(last bool) string {
	if g.t.P(1, 3) {
		return g.longBracket("--")
	}
	if g.t.giant && g.t.P(1, 8) {
		return "--." + strings.Repeat(g.t.Str([]string{"-", " c", "é", "[", "]]"}), g.t.big(3000)) + "\n"
	}
	s := "--" + g.t.Str([]string{"", " a comment", "[ [", "[=x", "]]", "-", "- -[[", " ]]", "[", " \"", " '", " end", "[==", " ä\xff", "=[[", " " + strings.Trim(string(g.t.wideRune()), "\r\n")}) + g.t.Str([]string{"", "\t", " -- x"})
	if last && g.t.P(1, 3) {
		return s
	}
	return s + "\n"
}

// luaProg is a rendered program with the positions of everything in it.
type luaProg struct {
	text     string
	toks     []luaTok
	from, to []int
	comments []span
	spans    []luaSpan
}

func (t *T) luaProgram(depth, fuel, stats int) *luaProg {
	g := &luaGen{t: t, fuel: fuel}
	g.block(depth, stats)
	return t.luaRender(g)
}

func (t *T) luaRender(g *luaGen) *luaProg {
	p := &luaProg{toks: g.toks, spans: g.spans}
	var b strings.Builder
	style := t.N(4) // 0: as tight as possible, 3: many comments
	sep := func(need, last bool) {
		n := 0
		switch style {
		case 0:
			if need {
				n = 1
			}
		case 1:
			n = 1
		default:
			n = t.N(3)
			if need && n == 0 {
				n = 1
			}
		}
		if t.giant && t.P(1, 12) {
			b.WriteString(strings.Repeat(t.Str([]string{" ", "\n", "\t ", "\r\n"}), t.big(3000)))
			need = false
			n = imin(n, 1)
		}
		for ; n > 0; n-- {
			if style == 3 && t.P(1, 2) {
				if s := b.String(); len(s) > 0 && s[len(s)-1] == '-' {
					b.WriteString(" ")
				}
				c := g.comment(last && n == 1)
				a := b.Len()
				b.WriteString(c)
				p.comments = append(p.comments, span{"Comment", a, a + len(strings.TrimSuffix(c, "\n"))})
				if strings.HasPrefix(c, "--[") {
					if e, open := luaLong(c, 2); open {
						p.comments[len(p.comments)-1].to = a + e
					}
				}
			} else if style == 0 {
				b.WriteString(" ")
			} else {
				b.WriteString(t.Str([]string{" ", " ", "\n", "\t", "\r\n", "  "}))
			}
		}
	}
	sep(false, false)
	for i, k := range g.toks {
		if i > 0 {
			l := luaLex(g.toks[i-1].s + k.s)
			need := !(len(l) == 2 && l[0] == g.toks[i-1] && l[1] == k)
			if need || style != 0 {
				sep(need, false)
			}
		}
		p.from = append(p.from, b.Len())
		b.WriteString(k.s)
		p.to = append(p.to, b.Len())
	}
	sep(false, true)
	p.text = b.String()
	return p
}

// ---------------------------------------------------------------------------- C17

const luaSteps = 1500000

// useLua reads the text; ok is false when the read takes too many steps (the
// grammar needs exponential time for deep parentheses, other properties decide
// whether it ends).
func useLua(s *tok.Scanner, r tok.Reader, tr *stepTracker) (err error, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(tooMany); !is {
				panic(x)
			}
			ok = false
		}
	}()
	return s.Use(r), true
}

// stepBasket limits the steps and tells the basket.
type stepBasket struct {
	*stepTracker
	b *tok.Basket
}

func (s stepBasket) Update(m tok.Marker) {
	s.stepTracker.Update(m)
	s.b.Update(m)
}

var luaStruct = map[string]bool{"funcdef": true, "tableconstructor": true, "retstat": true, "label": true, "break": true, "goto": true, "localatt": true, "do": true, "while": true, "repeat": true, "ifelse": true, "for": true, "foreach": true, "func": true, "funcname": true, "localfunc": true, "funccall": true}

func luaRule(g *grammar.LuaReader, name string) *tok.Rule {
	for _, r := range g.Grammar() {
		if r.Name == name {
			return r
		}
	}
	return nil
}

func runC17(t *T) {
	p := t.luaProgram(t.In(0, 5), t.In(5, 120), t.In(1, 6))
	judgeLua(t, p)
}

func judgeLua(t *T, p *luaProg) {
	text := p.text
	t.Notef("program %q", text)
	if !luaValid(p.toks) {
		panic("the generator made an invalid program: " + text)
	}
	g := grammar.Lua()
	s := tok.NewScanner(text)
	bk := &tok.Basket{}
	picked := map[string]bool{}
	for _, n := range []string{"Name", "Numeral", "LiteralString", "Comment"} {
		if t.P(3, 4) {
			luaRule(g, n).Pick(bk)
			picked[n] = true
		}
	}
	for _, n := range sortedKeys(luaStruct) {
		if t.P(1, 3) {
			luaRule(g, n).Pick(bk)
			picked[n] = true
		}
	}
	tr := &stepTracker{max: luaSteps}
	s.Tracker = stepBasket{tr, bk}
	err, ok := useLua(s, g, tr)
	if !ok {
		t.Obs("skipped (too many steps)")
		return
	}
	if err != nil {
		t.Failf("the program is rejected: %v", err)
	}
	if !s.AtEnd() {
		t.Failf("the program is read only up to %d: %q", s.Mark(), clip(s.Tail(), 80))
	}
	t.Obs("program read")
	// tokens, in text order
	want := map[string][]span{}
	for i, k := range p.toks {
		n := ""
		switch k.k {
		case lkName:
			n = "Name"
		case lkNumber:
			n = "Numeral"
		case lkString:
			n = "LiteralString"
		}
		if n != "" {
			want[n] = append(want[n], span{n, p.from[i], p.to[i]})
		}
	}
	want["Comment"] = p.comments
	got := map[string][]span{}
	for _, sg := range bk.Picked() {
		f, z := tokRange(sg.Token, text, s)
		got[sg.Info] = append(got[sg.Info], span{sg.Info, f, z})
	}
	for _, n := range []string{"Name", "Numeral", "LiteralString", "Comment"} {
		if !picked[n] {
			continue
		}
		for i := 0; i < len(want[n]) || i < len(got[n]); i++ {
			if i >= len(want[n]) {
				t.Failf("%s %q at %d is picked, but there is none", n, text[got[n][i].from:got[n][i].to], got[n][i].from)
			}
			w := want[n][i]
			if i >= len(got[n]) {
				t.Failf("%s %q at %d is not picked", n, text[w.from:w.to], w.from)
			}
			x := got[n][i]
			if n == "Comment" { // a CR in front of the line break may belong to it
				for x.to > x.from && text[x.to-1] == '\r' && !strings.HasSuffix(text[w.from:w.to], "\r") {
					x.to--
				}
			}
			if x != w {
				t.Failf("%s number %d is picked as %q at %d, it is %q at %d", n, i, text[x.from:x.to], x.from, text[w.from:w.to], w.from)
			}
			t.Obs("picked " + n)
		}
	}
	// structures: the range may include white space and comments around it
	wantS := map[string][]luaSpan{}
	for _, sp := range p.spans {
		wantS[sp.rule] = append(wantS[sp.rule], sp)
	}
	for n := range luaStruct {
		if !picked[n] {
			continue
		}
		w, gt := wantS[n], got[n]
		if len(w) != len(gt) {
			t.Failf("%d of %s are picked, there are %d: %v", len(gt), n, len(w), gt)
		}
		for i := range w {
			lo, hi := 0, len(text)
			if w[i].from > 0 {
				lo = p.to[w[i].from-1]
			}
			if w[i].to < len(p.toks) {
				hi = p.from[w[i].to]
			}
			x := gt[i]
			if x.from < lo || x.from > p.from[w[i].from] || x.to < p.to[w[i].to-1] || x.to > hi {
				t.Failf("%s number %d is picked as %q, it is %q", n, i, text[x.from:x.to], text[p.from[w[i].from]:p.to[w[i].to-1]])
			}
			t.Obs("picked " + n)
		}
	}
	if len(p.toks) > 5 {
		t.Distinct(text)
		t.Sample("%q: %d tokens, %d steps", clip(text, 200), len(p.toks), tr.n)
	}
}

func sortedKeys(m map[string]bool) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

func (t *T) luaAnyTok(g *luaGen) luaTok {
	switch t.N(6) {
	case 0:
		return luaTok{lkKeyword, t.Str(luaKeywords)}
	case 1:
		return luaTok{lkName, t.luaName()}
	case 2:
		return luaTok{lkNumber, t.luaNum()}
	case 3:
		return luaTok{lkString, g.strLit()}
	}
	return luaTok{lkSymbol, t.Str(luaSymbols)}
}

// token sequences around programs, separated by white space
func runC17Mut(t *T) {
	g := &luaGen{t: t, fuel: t.In(3, 40)}
	g.block(t.In(0, 3), t.In(1, 3))
	l := append([]luaTok{}, g.toks...)
	if t.P(1, 10) {
		l = nil
		for i := t.In(1, 8); i > 0; i-- {
			l = append(l, t.luaAnyTok(g))
		}
	}
	for i := t.In(0, 2); i > 0; i-- {
		a := t.In(0, len(l))
		switch t.N(5) {
		case 0:
			if a < len(l) {
				l = append(l[:a:a], l[a+1:]...)
			}
		case 1:
			l = append(l[:a:a], append([]luaTok{t.luaAnyTok(g)}, l[a:]...)...)
		case 2:
			if a < len(l) {
				l[a] = t.luaAnyTok(g)
			}
		case 3:
			if a+1 < len(l) {
				l[a], l[a+1] = l[a+1], l[a]
			}
		default:
			if a < len(l) && t.P(1, 3) {
				l = l[:a]
			} else if a < len(l) {
				l = append(l[:a:a], append([]luaTok{l[a]}, l[a:]...)...)
			}
		}
	}
	var b strings.Builder
	for i, k := range l {
		if i > 0 {
			b.WriteString(t.Str([]string{" ", " ", "\n"}))
		}
		b.WriteString(k.s)
	}
	text := b.String()
	judgeLuaSyntax(t, l, text)
}

func judgeLuaSyntax(t *T, l []luaTok, text string) {
	t.Notef("text %q", text)
	want := luaValid(l)
	s := tok.NewScanner(text)
	tr := &stepTracker{max: luaSteps}
	s.Tracker = tr
	err, ok := useLua(s, grammar.Lua(), tr)
	if !ok {
		t.Obs("skipped (too many steps)")
		return
	}
	got := err == nil && s.AtEnd()
	if want && !got {
		t.Failf("the program is read only up to %d (%v): %q", s.Mark(), err, text)
	}
	if !want && got {
		t.Failf("the text is no Lua program, but it is read to its end: %q", text)
	}
	if want {
		t.Obs("token sequence of a program")
	} else {
		t.Obs("token sequence of no program")
	}
	t.Distinct(text)
	if t.P(1, 6) && !strings.HasPrefix(text, "#!") {
		text = t.shebang(text == "") + text
		g := grammar.Lua()
		s := tok.NewScanner(text)
		tr := &stepTracker{max: luaSteps}
		s.Tracker = tr
		err, ok := useLua(s, &g.Script, tr)
		if !ok {
			t.Obs("skipped (too many steps)")
			return
		}
		if got := err == nil && s.AtEnd(); got != want {
			t.Failf("read to the end as a script: %v, expected %v: %q", got, want, text)
		}
		t.Obs("script of a program or none")
	}
}

func (t *T) shebang(alone bool) string {
	if t.P(1, 4) {
		return ""
	}
	b := "#!" + t.Str([]string{"/usr/bin/lua", "", " x -- y", "/bin/env lua -- [[", "ä", "#!", "\x00", strings.Repeat(t.Str([]string{"x", "/é", " -", "#!"}), t.big(2000)), strings.NewReplacer("\r", "", "\n", "").Replace(t.Text(30))})
	if alone && t.P(1, 2) {
		return b
	}
	return b + t.Str([]string{"\n", "\r\n"})
}

// the rule for scripts skips the first line
func runC17Script(t *T) {
	p := t.luaProgram(t.In(0, 3), t.In(3, 40), t.In(0, 3))
	if t.P(1, 10) {
		p.text = ""
	}
	bang := ""
	if t.P(2, 3) {
		bang = t.shebang(p.text == "")
	}
	text := bang + p.text
	t.Notef("script %q", text)
	g := grammar.Lua()
	s := tok.NewScanner(text)
	tr := &stepTracker{max: luaSteps}
	s.Tracker = tr
	err, ok := useLua(s, &g.Script, tr)
	if !ok {
		t.Obs("skipped (too many steps)")
		return
	}
	if err != nil || !s.AtEnd() {
		t.Failf("the script is read only up to %d (%v)", s.Mark(), err)
	}
	t.Obs("script read")
	if bang != "" {
		t.Distinct(text)
	}
}

var luaPins = []string{
	"", " ", "--", "-- x", "--[[ x ]]", ";", "x=1", "x = 1 -- c", "return", "return;", "f()", "f'x'", "f[[x]]", "f{}", "a.b:c(1)", "a.b.c=1", "a[1]=2", "(f)()", "(a).b=1", "('x'):rep(2)",
	"local a<const>, b <close> = 1, 2", "goto x ::x::", ":: x ::", "for i=1,2 do end", "for i=1,2,3 do end", "for k,v in pairs(t) do end", "repeat until x", "while x do break end", "if a then elseif b then else end",
	"function a.b.c:d(...) end", "local function f(a,b,...) return ... end", "x = function() end", "x = {1,2;3,a=1,['b']=2,}", "x = -1 - -2", "x = not not a", "x = a..b", "x = 1 ..2", "x = a//b", "x = ~a ~ b", "x = a ~= b", "x=a<<1>>2", "x=#t", "x = 3. + .5", "x='\\z \n y'", "x='\\\r\n'", "x = ends", "endx()", "notx = 1", "x = nilly", "andy = 1",
	"x = [==[ ]] ]=] ]==]", "--[==[ ]] ]=] ]==] x = 1", "--[=[ a ]=]\nx=1", "x = \"\\\"\"", "x = '\\''", "x=a--c\n+b", "f(function() return 1 end)", "a,b=b,a", "a.b, c[1] = 1, 2", "f{[1]=2}[3]=4", "f().x=1", "f'a'.x=1", "x=a.b:c'd'[e]", "return function() end", "do end", "do return end",
}

// what a slip of the pen leaves in a text
var luaSlips = strings.Fields("\" ' [ ] [[ ]] [=[ ]=] = . .. ... .... .5 5. 0x 0x. 1e e+ 1..2 3x 0xg - -- --[[ --[==[ \\ \\q \\x \\x1 \\xg0 \\u \\u{ \\u{} \\256 \\999 \\300 \\25 \\0 $ @ ? ! ` ä € != && || += ++ -> => <= >= << >> < > ~ ~= : :: , ; ( ) { } # % ^ & | / // * + and or not nil end do a _ 0 9 \x00 \x7f")

// runC17Chars changes characters of a program and asks the lexer and the parser what is left.
func runC17Chars(t *T) {
	var text string
	if t.P(1, 3) {
		g := &luaGen{t: t, fuel: t.In(3, 30)}
		g.block(t.In(0, 2), t.In(1, 2))
		var b strings.Builder
		for i, k := range g.toks {
			if i > 0 && t.P(1, 2) {
				b.WriteString(" ")
			}
			b.WriteString(k.s)
		}
		text = b.String()
	} else {
		text = t.luaProgram(t.In(0, 2), t.In(3, 30), t.In(1, 2)).text
	}
	for i := t.In(0, 2); i > 0; i-- {
		a := t.In(0, len(text))
		switch t.N(6) {
		case 0:
			if a < len(text) {
				text = text[:a] + text[a+1:]
			}
		case 1:
			if a < len(text) && t.P(1, 3) {
				text = text[:a]
			} else if a < len(text) {
				text = text[:a] + text[a:a+1] + text[a:]
			}
		case 2:
			text = text[:a] + t.Str([]string{"\n", "\r\n", " ", "\t"}) + text[a:]
		case 3:
			if a < len(text) {
				text = text[:a] + t.Str(luaSlips) + text[a+1:]
			}
		default:
			text = text[:a] + t.Str(luaSlips) + text[a:]
		}
	}
	judgeLuaText(t, text)
}

// runC17Lexemes puts one literal, often a malformed one, where an expression may be.
func runC17Lexemes(t *T) {
	lex := ""
	switch t.N(5) {
	case 0: // short string
		q := t.Str([]string{"\"", "'"})
		lex = q
		for i := t.In(0, 3); i > 0; i-- {
			switch t.N(4) {
			case 0:
				lex += t.luaEscape()
			case 1:
				lex += "\\" + t.Str([]string{"q", "x", "xa", "x0g", "xg0", "u", "u{", "u{}", "u{g}", "u1", "u{1", "256", "260", "300", "999", "255", "25", "2", "0", "00", "1000", "2555", "2560", "z", "z \n ", "\n", "\r\n", "A", "N", "X41", "U{1}", " ", "ä", "-", "[", "\"", "'", "\\", "8", "19", "199", "2a"})
			case 2:
				lex += t.luaStrRune(q)
			default:
				lex += t.Str([]string{"0", "5", "9", "a", "\n", "\r\n", "\"", "'", "{", "}", "--", "[["})
			}
		}
		lex += t.Str([]string{q, q, q, q, "", "\"", "'"})
	case 1: // long bracket
		lv := strings.Repeat("=", t.In(0, 3))
		lex = "[" + lv + "["
		for i := t.In(0, 4); i > 0; i-- {
			lex += t.Str([]string{"]", "]]", "]=]", "]==]", "[[", "[=[", "a", "\n", "\\", "ä", "=", "--"})
		}
		lex += t.Str([]string{"]" + lv + "]", "]" + lv + "]", "]" + lv + "=]", "]", ""})
		if t.P(1, 3) {
			lex = "--" + lex + t.Str([]string{" 1", "1", "\n1"})
		}
	default: // numeral
		for i := t.In(1, 5); i > 0; i-- {
			lex += t.Str([]string{"0", "1", "9", "0x", "0X", "x", "a", "F", "g", ".", ".", "e", "E", "p", "P", "+", "-", "_", "12", "00", "e5", "e+5", "p-1", "..", "and"})
		}
	}
	pre := t.Str([]string{"x=", "x = ", "return ", "return", "f(", "x={", "x={[", "x=a[", "x=1 ..", "x=1..", "x=a..", "x=a+", "f", "f ", "x=-", "x=not", "x=a ", "local x<const>="})
	post := ""
	switch {
	case strings.HasSuffix(pre, "("):
		post = ")"
	case strings.HasSuffix(pre, "{["):
		post = "]=1}"
	case strings.HasSuffix(pre, "{"):
		post = "}"
	case strings.HasSuffix(pre, "["):
		post = "]"
	}
	if post == "" {
		post = t.Str([]string{"", " ", ";", "\n", "..x", " ..x", "...", "+1", "and 1", " and 1", "x", " y=1", "--c", "[1]=2", ".b=1", ":c()"})
	}
	judgeLuaText(t, pre+lex+post)
}

func judgeLuaText(t *T, text string) {
	for i := 0; i < len(text); i++ {
		// line ends are LF or CRLF, the grammar has no other white space
		if text[i] == '\r' && (i+1 >= len(text) || text[i+1] != '\n') || text[i] == '\v' || text[i] == '\f' {
			t.Obs("skipped (lone CR, VT or FF)")
			return
		}
	}
	if !utf8.ValidString(text) {
		t.Obs("skipped (no UTF-8)")
		return
	}
	l := []luaTok{}
	bad := false
	for _, k := range luaLex(text) {
		if k.k == lkBad {
			bad = true
		}
		if k.k != lkComment {
			l = append(l, k)
		}
	}
	if bad {
		t.Obs("malformed token")
	} else {
		t.Obs("tokens of a changed text")
	}
	judgeLuaSyntax(t, l, text)
}

func runC17Pins(t *T) {
	text := luaPins[t.idx]
	l := []luaTok{}
	for _, k := range luaLex(text) {
		if k.k != lkComment {
			l = append(l, k)
		}
	}
	if !luaValid(l) {
		panic("pin is no program: " + text)
	}
	judgeLuaSyntax(t, l, text)
	t.Obs("pinned program")
	_ = fmt.Sprint
}

func init() {
	fl := []string{"giant text", "sentence of the own rules", "program read", "script read", "script of a program or none", "pinned program", "edited template", "moved run of tokens", "keyword for a name", "tiny text", "token sequence of a program", "token sequence of no program", "malformed token", "tokens of a changed text", "picked Name", "picked Numeral", "picked LiteralString", "picked Comment"}
	for n := range luaStruct {
		fl = append(fl, "picked "+n)
	}
	register(&Prop{ID: "C17", Rule: "generated Lua 5.4 programs (all statements, expressions, literal forms; white space and comments between any two tokens, or as tight as the lexer allows), mutated token sequences and templates with every byte and some rare runes at and in place of each position against an independent parser; non-trivial: more than 5 tokens, or any mutated sequence, distinct by text",
		Floors: fl,
		Assume: []string{"the lexer and parser in harness/glua.go state the syntax of Lua 5.4", "programs that take more than 1.5 million scanner moves are left out (counted as skipped)"},
		Suites: []Suite{{"pinned", len(luaPins), len(luaPins), runC17Pins}, {"moved runs", runEditCount(luaRunTemplates), runEditCount(luaRunTemplates), runC17Runs}, {"edited templates", editCount(luaTemplates), editCount(luaTemplates), runC17Edits}, {"words", len(luaWords) * len(luaNamePlaces), len(luaWords) * len(luaNamePlaces), runC17Words}, {"tiny texts", sequences(len(luaTiny), 3), sequences(len(luaTiny), 4), runC17Tiny}, {"programs", 12000, 400000, runC17}, {"token sequences", 20000, 800000, runC17Mut}, {"scripts", 1500, 60000, runC17Script}, {"changed characters", 20000, 800000, runC17Chars}, {"literals", 20000, 800000, runC17Lexemes}, {"giants", 500, 20000, runC17Giant}, {"own sentences", 20000, 800000, runC17Own}}})
}
