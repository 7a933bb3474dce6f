package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ------------------------------------------------------------------- JSON texts

type span struct {
	info     string
	from, to int
}

// jsonRef is an independent JSON reader: it returns the end of the value with
// the white space around it (-1 if there is none) and the ranges of its
// elements in the order in which they are complete.
type jsonRef struct {
	s     string
	spans []span
}

func (j *jsonRef) ws(p int) int {
	for p < len(j.s) && strings.IndexByte(" \t\r\n", j.s[p]) >= 0 {
		p++
	}
	return p
}

func (j *jsonRef) add(info string, a, z int) { j.spans = append(j.spans, span{info, a, z}) }

func (j *jsonRef) str(p int) int {
	if p >= len(j.s) || j.s[p] != '"' {
		return -1
	}
	for p++; p < len(j.s); {
		switch c := j.s[p]; {
		case c == '"':
			return p + 1
		case c < 0x20:
			return -1
		case c == '\\':
			if p+1 >= len(j.s) {
				return -1
			}
			if j.s[p+1] == 'u' {
				if p+6 > len(j.s) {
					return -1
				}
				for _, h := range []byte(j.s[p+2 : p+6]) {
					if !(h >= '0' && h <= '9' || h >= 'a' && h <= 'f' || h >= 'A' && h <= 'F') {
						return -1
					}
				}
				p += 6
			} else if strings.IndexByte(`"\/bfnrt`, j.s[p+1]) >= 0 {
				p += 2
			} else {
				return -1
			}
		default:
			p++
		}
	}
	return -1
}

func (j *jsonRef) digits(p int) int {
	for p < len(j.s) && j.s[p] >= '0' && j.s[p] <= '9' {
		p++
	}
	return p
}

func (j *jsonRef) num(p int) int {
	if p < len(j.s) && j.s[p] == '-' {
		p++
	}
	if p >= len(j.s) || j.s[p] < '0' || j.s[p] > '9' {
		return -1
	}
	if j.s[p] == '0' {
		p++
	} else {
		p = j.digits(p)
	}
	if p < len(j.s) && j.s[p] == '.' {
		if q := j.digits(p + 1); q > p+1 {
			p = q
		}
	}
	if p < len(j.s) && (j.s[p] == 'e' || j.s[p] == 'E') {
		q := p + 1
		if q < len(j.s) && (j.s[q] == '+' || j.s[q] == '-') {
			q++
		}
		if r := j.digits(q); r > q {
			p = r
		}
	}
	return p
}

func (j *jsonRef) element(p int) int {
	p = j.ws(p)
	if p = j.value(p); p < 0 {
		return -1
	}
	return j.ws(p)
}

func (j *jsonRef) value(p int) int {
	if p >= len(j.s) {
		return -1
	}
	for _, l := range []struct{ lit, info string }{{"true", "bool"}, {"false", "bool"}, {"null", "null"}} {
		if strings.HasPrefix(j.s[p:], l.lit) {
			j.add(l.info, p, p+len(l.lit))
			return p + len(l.lit)
		}
	}
	switch j.s[p] {
	case '"':
		e := j.str(p)
		if e >= 0 {
			j.add("string", p, e)
		}
		return e
	case '[', '{':
		start, obj := p, j.s[p] == '{'
		closer, info := byte(']'), "array"
		if obj {
			closer, info = '}', "object"
		}
		if q := j.ws(p + 1); q < len(j.s) && j.s[q] == closer {
			j.add(info, start, q+1)
			return q + 1
		}
		p++
		for {
			if obj {
				p = j.ws(p)
				k := j.str(p)
				if k < 0 {
					return -1
				}
				j.add("key", p, k)
				p = j.ws(k)
				if p >= len(j.s) || j.s[p] != ':' {
					return -1
				}
				p++
			}
			if p = j.element(p); p < 0 || p >= len(j.s) {
				return -1
			}
			if j.s[p] == closer {
				j.add(info, start, p+1)
				return p + 1
			}
			if j.s[p] != ',' {
				return -1
			}
			p++
		}
	}
	e := j.num(p)
	if e >= 0 {
		j.add("number", p, e)
	}
	return e
}

func (t *T) jsonWS(b *strings.Builder) {
	if t.P(2, 3) {
		return
	}
	for i := t.tail(t.In(1, 3), 300); i > 0; i-- {
		b.WriteByte(" \t\r\n"[t.N(4)])
	}
}

func (t *T) jsonStr(b *strings.Builder) {
	b.WriteByte('"')
	for i := t.tail(t.Size(60), 3000); i > 0; i-- {
		switch t.N(6) {
		case 0:
			b.WriteString(t.Str([]string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`}))
		case 1:
			b.WriteString(fmt.Sprintf(t.Str([]string{`\u%04x`, `\u%04X`}), t.N(65536)))
		case 2:
			a := t.atom()
			if t.P(1, 3) {
				a = string(t.wideRune())
			}
			if strings.ContainsAny(a, "\"\\") || hasCtl(a) {
				a = "é"
			}
			b.WriteString(a)
		case 3:
			b.WriteString(t.Str([]string{" ", "/", "\x7f", "{", "}", "[", "]", ",", ":", "true", "1", "€", "\u2028", "😀", "\U0010ffff", "\ufffd", "'"}))
		default:
			b.WriteByte("abcXYZ019 _-"[t.N(12)])
		}
	}
	b.WriteByte('"')
}

func hasCtl(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 {
			return true
		}
	}
	return false
}

func (t *T) jsonDigits(b *strings.Builder) {
	for i := 1 + t.tail(t.Size(30), 700); i > 0; i-- {
		b.WriteByte("0123456789"[t.N(10)])
	}
}

func (t *T) jsonNum(b *strings.Builder) {
	if t.P(1, 3) {
		b.WriteByte('-')
	}
	if t.P(1, 4) {
		b.WriteByte('0')
	} else {
		b.WriteByte("123456789"[t.N(9)])
		if t.P(1, 2) {
			t.jsonDigits(b)
		}
	}
	if t.P(1, 3) {
		b.WriteByte('.')
		t.jsonDigits(b)
	}
	if t.P(1, 3) {
		b.WriteString(t.Str([]string{"e", "E", "e+", "e-", "E+", "E-"}))
		t.jsonDigits(b)
	}
}

func (t *T) jsonVal(b *strings.Builder, depth int, fuel *int) {
	*fuel--
	k := t.N(9)
	if depth <= 0 || *fuel <= 0 {
		k = t.N(5)
	}
	switch k {
	case 0:
		b.WriteString("null")
	case 1:
		b.WriteString("true")
	case 2:
		b.WriteString("false")
	case 3:
		t.jsonStr(b)
	case 4:
		t.jsonNum(b)
	case 5, 6:
		b.WriteByte('[')
		n := t.tail(t.Size(12), 700)
		if n == 0 {
			t.jsonWS(b)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			t.jsonWS(b)
			t.jsonVal(b, depth-1, fuel)
			t.jsonWS(b)
		}
		b.WriteByte(']')
	default:
		b.WriteByte('{')
		n := t.tail(t.Size(12), 700)
		if n == 0 {
			t.jsonWS(b)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			t.jsonWS(b)
			t.jsonStr(b)
			t.jsonWS(b)
			b.WriteByte(':')
			t.jsonWS(b)
			t.jsonVal(b, depth-1, fuel)
			t.jsonWS(b)
		}
		b.WriteByte('}')
	}
}

func (t *T) jsonText(fuel int) string {
	var b strings.Builder
	t.jsonWS(&b)
	t.jsonVal(&b, t.In(0, 6), &fuel)
	t.jsonWS(&b)
	return b.String()
}

func (t *T) jsonDeep(max int) string {
	n := t.In(1, max)
	var b strings.Builder
	closers := []byte{}
	for i := 0; i < n; i++ {
		if t.P(1, 2) {
			b.WriteString(t.Str([]string{"[", "[ ", "[1,", "[{},"}))
			closers = append(closers, ']')
		} else {
			b.WriteString(t.Str([]string{`{"a":`, `{ "" : `, `{"x":1,"y":`}))
			closers = append(closers, '}')
		}
	}
	b.WriteString(t.Str([]string{"1", "[]", "{}", `"x"`, "null"}))
	for i := n - 1; i >= 0; i-- {
		b.WriteByte(closers[i])
	}
	return b.String()
}

var jsonAtoms = []string{"{", "}", "[", "]", ",", ":", `"`, `\`, "/", "-", "+", ".", "0", "1", "9", "e", "E", "true", "false", "null", "tru", "nul", "True", " ", "\t", "\n", "\r",
	"\x00", "\x1f", "\v", "\f", "\u00a0", "\ufeff", `\u12`, `\u12G4`, `\x41`, `\u`, `\`, `""`, `"a"`, `"a":1`, "01", "-0", "1.", ".5", "1e", "1e+", "--1", "+1", "0x1", "NaN", "//", "'a'", "ｅ", "\xff", "\xe2\x82", "a", "{}", "[]", ",,", "[,", ",]", "{,", ",}", "\"\n\"", "\"\t\""}

func (t *T) jsonMutate(s string) string {
	for i := t.In(1, 3); i > 0; i-- {
		a := t.In(0, len(s))
		z := imin(len(s), a+t.In(0, 3))
		switch t.N(7) {
		case 0:
			s = s[:a] + s[z:]
		case 1:
			s = s[:a] + t.Str(jsonAtoms) + s[a:]
		case 2:
			s = s[:a] + t.Str(jsonAtoms) + s[z:]
		case 3:
			s = s[:a]
		case 4: // near a structural byte
			if k := strings.IndexAny(s[a:], "{}[],:\"\\eE.-"); k >= 0 {
				p := a + k
				s = s[:p] + t.Str(jsonAtoms) + s[p+1:]
			}
		case 5:
			if a < len(s) {
				s = s[:a] + string([]byte{byte(t.N(256))}) + s[a+1:]
			}
		default:
			s = s[:a] + s[a:z] + s[a:]
		}
	}
	return s
}

// longest prefix that is a JSON value with white space around it
func jsonPrefix(s string) int {
	for n := len(s); n > 0; n-- {
		if json.Valid([]byte(s[:n])) {
			return n
		}
	}
	return -1
}

// ---------------------------------------------------------------------------- C15

func pickJSON(t *T, g *grammar.JSONReader, b *tok.Basket, all bool) map[string]bool {
	set := map[string]bool{}
	for _, r := range []*tok.Rule{&g.Object, &g.Array, &g.String, &g.Key, &g.Number, &g.Bool, &g.Null} {
		if all || t.P(1, 2) {
			r.Pick(b)
			set[r.Name] = true
		}
	}
	return set
}

func judgeJSON(t *T, text string, all bool) {
	g := grammar.JSON()
	s := tok.NewScanner(text)
	b := s.NewBasket()
	set := pickJSON(t, g, b, all)
	err := s.Use(g)
	np := int(s.Mark())
	t.Notef("text %q", text)
	valid := json.Valid([]byte(text))
	if valid {
		if err != nil {
			t.Failf("valid JSON is rejected: %v, text %q", err, text)
		}
		if np != len(text) {
			t.Failf("valid JSON is read only up to %d of %d, text %q", np, len(text), text)
		}
		t.Obs("valid text")
		ref := &jsonRef{s: text}
		ref.element(0)
		want := []tok.Segment{}
		for _, sp := range ref.spans {
			if set[sp.info] {
				want = append(want, tok.Segment{Info: sp.info, Token: mk(sp.from, sp.to)})
				t.Obs("picked " + sp.info)
			}
		}
		got := b.Picked()
		if len(got) != len(want) {
			t.Failf("picked %s, expected %s, text %q", clip(segs(got), 400), clip(segs(want), 400), text)
		}
		for i := range got {
			if got[i] != want[i] {
				t.Failf("picked %v as number %d, expected %v, text %q", got[i], i, want[i], text)
			}
		}
		if len(want) > 2 {
			t.Distinct(text)
			t.Sample("%q: %d segments", clip(text, 160), len(want))
		}
		return
	}
	if err == nil && np == len(text) {
		t.Failf("the text %q is no JSON, but it is read to its end", text)
	}
	if len(text) <= 500 {
		want := jsonPrefix(text)
		if err == nil && np != want {
			t.Failf("read up to %d of %q, the longest prefix that is JSON has %d bytes", np, text, want)
		}
		if err != nil && want >= 0 {
			t.Failf("rejected (%v), but the first %d bytes of %q are JSON", err, want, text)
		}
	} else if err == nil && !json.Valid([]byte(text[:np])) {
		t.Failf("read up to %d of %q, which is no JSON", np, text)
	}
	if err != nil {
		t.Obs("rejected text")
		if np != 0 {
			t.Failf("rejected and left at %d", np)
		}
		if len(b.Picked()) > 0 && np == 0 {
			for _, x := range b.Picked() {
				if x.Len() > 0 {
					t.Failf("rejected, but %v stays picked, text %q", x, text)
				}
			}
		}
	} else {
		t.Obs("read up to a prefix")
	}
	t.Distinct(text)
}

func runC15Valid(t *T) {
	fuel := t.Size(200) + 2
	judgeJSON(t, t.jsonText(fuel), t.P(3, 4))
}

func runC15Mut(t *T) {
	fuel := t.Size(30) + 2
	judgeJSON(t, t.jsonMutate(t.jsonText(fuel)), t.P(3, 4))
}

func runC15Deep(t *T) {
	text := t.jsonDeep(600)
	if t.P(1, 3) {
		text = t.jsonMutate(text)
	}
	judgeJSON(t, text, t.P(1, 2))
	t.Obs("deep text")
}

// every text of up to 3 atoms over a JSON alphabet
var jsonTiny = []string{"{", "}", "[", "]", ",", ":", `"`, `\`, "-", "+", ".", "0", "1", "e", "E", "true", "null", "false", " ", "\n", "a", `"a"`, "\x1f", `\u00e9`, "\v"}

func runC15Tiny(t *T) {
	i, text := t.idx, ""
	for i > 0 {
		i--
		text += jsonTiny[i%len(jsonTiny)]
		i /= len(jsonTiny)
	}
	judgeJSON(t, text, true)
}

// one character in a string, one escape
func runC15Chars(t *T) {
	i := t.idx
	text := ""
	switch {
	case i < 256:
		text = `"` + string([]byte{byte(i)}) + `"`
	case i < 512:
		text = `["\` + string([]byte{byte(i - 256)}) + `"]`
	default:
		r := rune((i - 512) * 7)
		text = `{"` + string(r) + `":"` + string(r+1) + `\u` + fmt.Sprintf("%04x", i&0xffff) + `"}`
	}
	judgeJSON(t, text, true)
	t.Obs("character in a string")
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

func init() {
	n := len(jsonTiny)
	register(&Prop{ID: "C15", Rule: "generated JSON documents (all escapes, number forms, white space, depth up to 600), mutations and truncations of them, all texts of up to 3 (thorough: 4) atoms over a JSON alphabet, every byte and escape in a string, every byte and some rare runes at and in place of each position of 13 templates; non-trivial: a valid text with more than 2 elements or any text that is no JSON, distinct by text",
		Floors: []string{"valid text", "rejected text", "read up to a prefix", "deep text", "giant text", "sentence of the own rules", "edited template", "moved run of tokens", "character in a string", "picked object", "picked array", "picked string", "picked key", "picked number", "picked bool", "picked null"},
		Assume: []string{"encoding/json.Valid decides what JSON is (it lets bytes that are no UTF-8 pass inside strings, as the grammar does)", "harness/gjson.go finds the ranges of the elements of a valid text"},
		Suites: []Suite{
			{"tiny texts", 1 + n + n*n + n*n*n, 1 + n + n*n + n*n*n + pow(n, 4), runC15Tiny},
			{"moved runs", runEditCount(jsonRunTemplates), runEditCount(jsonRunTemplates), runC15Runs}, {"edited templates", editCount(jsonTemplates), editCount(jsonTemplates), runC15Edits},
			{"characters", 4000, 160000, runC15Chars},
			{"valid documents", 12000, 800000, runC15Valid},
			{"mutated documents", 40000, 3000000, runC15Mut},
			{"deep documents", 300, 10000, runC15Deep},
			{"giants", 300, 12000, runC15Giant},
			{"own sentences", 30000, 1500000, runC15Own},
		}})
}
