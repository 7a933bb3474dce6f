package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// -------------------------------------------------------------------- MXT texts

type mxtChunk struct {
	name, comment, arrow, salt string
	saltGiven                  bool // white space behind the arrow
	content                    string
	empty                      bool // nothing behind the header, not even an empty line
	nameAt, contentAt          int
}

func wordChar(r rune) bool { return r >= 0x21 }

var mxtWordAtoms = []string{"a", "b", "x", "-", "->", ">", "--", "/", "//", "#", "!", "ä", "語", "😀", "\u00a0", "\ufffd", "\U0010ffff", "0", "=", "<", "\\", "\x7f"}

func (t *T) mxtWord(max int) string {
	n := 1 + t.tail(t.Size(max), 400)
	s := ""
	for i := 0; i < n; i++ {
		if t.P(1, 2) {
			s += string("abcxyz019.-_/"[t.N(13)])
		} else if t.P(1, 6) {
			s += string(imaxRune(t.wideRune(), 0x21))
		} else {
			s += t.Str(mxtWordAtoms)
		}
	}
	return s
}

func imaxRune(a, b rune) rune {
	if a > b {
		return a
	}
	return b
}

func (t *T) nl() string { return t.Str([]string{"\n", "\n", "\r\n"}) }

func (t *T) spaces(min int) string { return strings.Repeat(" ", min+t.tail(t.Size(3), 300)) }

// contentOK: no line of the content starts with the marker.
func contentOK(content, marker string) bool {
	for _, l := range strings.Split(content, "\n") {
		if strings.HasPrefix(l, marker) {
			return false
		}
	}
	return true
}

func (t *T) mxtContent(salt string) string {
	var b strings.Builder
	for i := t.tail(t.Size(30), 1500); i > 0; i-- {
		switch t.N(9) {
		case 0, 1:
			b.WriteString(t.nl())
		case 2:
			b.WriteString("//")
		case 3:
			b.WriteString(t.nl() + "//" + t.mxtWord(2))
		case 4: // look-alikes of the end
			if salt != "" {
				b.WriteString(t.nl() + "//" + salt[:t.N(len(salt))])
			} else {
				b.WriteString(t.nl() + "/ /")
			}
		case 5:
			b.WriteString(t.nl() + " //" + salt)
		case 6:
			b.WriteString(t.Str([]string{"\r", "\t", " ", "-->", "// x -->", "\x00", "\xff", "\xe2\x82"}))
		case 7:
			b.WriteString("text//" + salt)
		default:
			if t.P(1, 5) {
				b.WriteString(t.atom())
			} else {
				b.WriteString(t.mxtWord(3))
			}
		}
	}
	c := b.String()
	for !contentOK(c, "//"+salt) {
		i := 0
		if !strings.HasPrefix(c, "//"+salt) {
			i = strings.Index(c, "\n//"+salt) + 1
		}
		c = c[:i] + "_" + c[i:]
	}
	for strings.HasSuffix(c, "\r") { // would belong to the line break behind the content
		c = c[:len(c)-1]
	}
	return c
}

func (t *T) mxtDoc(max int) (string, []mxtChunk) {
	var b strings.Builder
	chunks := []mxtChunk{}
	n := 1 + t.tail(t.Size(max), 80)
	salt := ""
	for i := 0; i < n; i++ {
		c := mxtChunk{}
		b.WriteString("//")
		if i > 0 {
			b.WriteString(salt)
		}
		if t.P(1, 3) {
			b.WriteString(t.mxtWord(2))
		}
		b.WriteString(t.spaces(1))
		c.nameAt = b.Len()
		c.name = t.mxtWord(6)
		b.WriteString(c.name)
		for { // comment and arrow: the first arrow head ends the arrow
			c.comment = t.Str([]string{" ", "  ", "\t", " \t "})
			if t.P(1, 2) {
				c.comment += t.mxtWord(5) + " "
				if t.P(1, 3) {
					c.comment += t.Str([]string{"a comment -> here ", "-- > ", "-- ", "\t", "it is ", t.mxtWord(12) + " ", string(t.wideRune()) + " "})
				}
			}
			c.arrow = "-->"
			if t.P(1, 3) {
				c.arrow = t.Str([]string{"-", "--", "<", "=", "<--x", "#", "ä", "----", t.mxtWord(3)}) + c.arrow
			}
			ca := c.comment + c.arrow
			if strings.Index(ca, "-->") == len(ca)-3 {
				break
			}
		}
		b.WriteString(c.comment + c.arrow)
		salt = ""
		if t.P(1, 2) {
			c.saltGiven = true
			b.WriteString(t.spaces(1))
			if t.P(3, 4) {
				salt = t.mxtWord(3)
				c.salt = salt
				b.WriteString(salt + t.spaces(0))
			}
		}
		if t.P(1, 4) {
			c.empty = true
		} else {
			b.WriteString(t.nl())
			c.contentAt = b.Len()
			c.content = t.mxtContent(salt)
			b.WriteString(c.content)
		}
		if i+1 < n {
			b.WriteString(t.nl())
		}
		chunks = append(chunks, c)
	}
	return b.String(), chunks
}

// mxtRef is an independent reader: end of the read text, -1 if it is rejected.
func mxtRef(s string) int {
	wordEnd := func(p int) int {
		for p < len(s) {
			r, w := utf8.DecodeRuneInString(s[p:])
			if !wordChar(r) {
				break
			}
			p += w
		}
		return p
	}
	sp := func(p int) int {
		for p < len(s) && s[p] == ' ' {
			p++
		}
		return p
	}
	nl := func(p int) int {
		if strings.HasPrefix(s[p:], "\n") {
			return p + 1
		}
		if strings.HasPrefix(s[p:], "\r\n") {
			return p + 2
		}
		return -1
	}
	chunk := func(p int) int {
		if !strings.HasPrefix(s[p:], "//") {
			return -1
		}
		p = wordEnd(p + 2)
		q := sp(p)
		if q == p {
			return -1
		}
		p = wordEnd(q)
		if p == q {
			return -1
		}
		i := strings.Index(s[p:], "-->")
		if i < 0 {
			return -1
		}
		p += i + 3
		salt := ""
		if q := sp(p); q > p {
			e := wordEnd(q)
			salt = s[q:e]
			p = sp(e)
		}
		if p == len(s) {
			return p
		}
		mark := "//" + salt
		q = nl(p)
		if q < 0 {
			return -1
		}
		if strings.HasPrefix(s[q:], mark) {
			return p
		}
		p = q
		for ; p < len(s); p++ {
			if q := nl(p); q >= 0 && strings.HasPrefix(s[q:], mark) {
				return p
			}
		}
		return len(s)
	}
	p := chunk(0)
	if p < 0 {
		return -1
	}
	for {
		q := nl(p)
		if q < 0 {
			return p
		}
		e := chunk(q)
		if e < 0 {
			return p
		}
		p = e
	}
}

// ---------------------------------------------------------------------------- C16

type mxtSink struct {
	g                            *grammar.MXTReader
	names, comments, arrows      []tok.Token
	salts, contents, emptyChunks []tok.Token
	order                        []string
}

func newMXTSink() *mxtSink {
	k := &mxtSink{g: grammar.MXT()}
	put := func(l *[]tok.Token, kind string) func(tok.Token) {
		return func(x tok.Token) { *l = append(*l, x); k.order = append(k.order, kind) }
	}
	k.g.Name.Map(put(&k.names, "name"))
	k.g.Comment.Map(put(&k.comments, "comment"))
	k.g.Arrow.Map(put(&k.arrows, "arrow"))
	k.g.Salt.Map(put(&k.salts, "salt"))
	k.g.Content.Map(put(&k.contents, "content"))
	k.g.EmptyContent.Map(put(&k.emptyChunks, "empty"))
	return k
}

func (k *mxtSink) reset() {
	k.names, k.comments, k.arrows, k.salts, k.contents, k.emptyChunks, k.order = nil, nil, nil, nil, nil, nil, nil
}

func judgeMXTDoc(t *T, k *mxtSink, text string, chunks []mxtChunk) {
	k.reset()
	t.Notef("document %q", text)
	s := tok.NewScanner(text)
	if err := s.Use(k.g); err != nil {
		t.Failf("the document is rejected: %v", err)
	}
	if !s.AtEnd() {
		t.Failf("the document is read only up to %d of %d", s.Mark(), len(text))
	}
	want := []string{}
	add := func(kind string, v string) { want = append(want, kind+" "+fmt.Sprintf("%q", v)) }
	for _, c := range chunks {
		add("name", c.name)
		add("comment", c.comment)
		add("arrow", c.arrow)
		if c.saltGiven {
			add("salt", c.salt)
			t.Obs("chunk with salt field")
		}
		if c.empty {
			add("empty", "")
			t.Obs("empty chunk")
		} else {
			add("content", c.content)
			if c.salt != "" && strings.Contains("\n"+c.content, "\n//") {
				t.Obs("marker line inside of salted content")
			}
		}
	}
	got := []string{}
	lists := map[string][]tok.Token{"name": k.names, "comment": k.comments, "arrow": k.arrows, "salt": k.salts, "content": k.contents, "empty": k.emptyChunks}
	for _, kind := range k.order {
		v := s.Get(lists[kind][0])
		lists[kind] = lists[kind][1:]
		if kind == "salt" {
			v = strings.Trim(v, " ")
		}
		got = append(got, kind+" "+fmt.Sprintf("%q", v))
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			t.Failf("part %d is %s, expected %s", i, g, w)
		}
	}
	for i, c := range chunks {
		if f, _ := tokRange(k.names[i], text, s); f != c.nameAt {
			t.Failf("name %d is at %d, expected at %d", i, f, c.nameAt)
		}
	}
	if len(chunks) > 1 {
		t.Obs("several chunks")
		t.Distinct(text)
		t.Sample("%q: %d chunks", clip(text, 200), len(chunks))
	}
}

func runC16(t *T) {
	k := newMXTSink()
	for i := t.In(1, 4); i > 0; i-- {
		if t.P(1, 4) { // something else in between
			bad := t.mxtMutant()
			t.Notef("before: %q", bad)
			tok.NewScanner(bad).Use(k.g)
			t.Obs("grammar used before")
		}
		text, chunks := t.mxtDoc(8)
		judgeMXTDoc(t, k, text, chunks)
	}
}

var mxtAtoms = []string{"//", "/", "-->", "->", "-", ">", " ", "  ", "\n", "\r\n", "\r", "\t", "a", "b", "// a -->", "\n// b --> s\n", "\n//s c -->", "ä", "\x00"}

func (t *T) mxtMutant() string {
	text := ""
	if t.P(1, 4) {
		for i := t.Size(30); i > 0; i-- {
			text += t.Str(mxtAtoms)
		}
	} else {
		text, _ = t.mxtDoc(4)
		text = t.mutate(text, mxtAtoms)
	}
	return strings.ToValidUTF8(text, "?")
}

func runC16Mut(t *T) { judgeMXTText(t, t.mxtMutant()) }

func judgeMXTText(t *T, text string) {
	t.Notef("text %q", text)
	s := tok.NewScanner(text)
	err := s.Use(grammar.MXT())
	np := int(s.Mark())
	want := mxtRef(text)
	if (err == nil) != (want >= 0) {
		t.Failf("error %v at %d of %q, expected the end of the read at %d", err, np, text, want)
	}
	if err == nil && np != want {
		t.Failf("read up to %d of %q, expected %d", np, text, want)
	}
	switch {
	case err != nil:
		t.Obs("rejected text")
	case np < len(text):
		t.Obs("read up to a broken chunk")
	default:
		t.Obs("read completely")
	}
	t.Distinct(text)
}

var mxtPins = []struct {
	text   string
	chunks []mxtChunk
}{
	{"// a -->", []mxtChunk{{name: "a", comment: " ", arrow: "-->", empty: true, nameAt: 3}}},
	{"// a -->\n", []mxtChunk{{name: "a", comment: " ", arrow: "-->", nameAt: 3}}},
	{"// a --> X\n// b -->\nin a\n//X b -->\nin b", []mxtChunk{
		{name: "a", comment: " ", arrow: "-->", salt: "X", saltGiven: true, content: "// b -->\nin a", nameAt: 3},
		{name: "b", comment: " ", arrow: "-->", content: "in b", nameAt: 29}}},
	{"// a --> X\nt\n//X b -->\nu\n// c -->\nv", []mxtChunk{
		{name: "a", comment: " ", arrow: "-->", salt: "X", saltGiven: true, content: "t", nameAt: 3},
		{name: "b", comment: " ", arrow: "-->", content: "u", nameAt: 17},
		{name: "c", comment: " ", arrow: "-->", content: "v", nameAt: 28}}},
}

func runC16Pins(t *T) {
	p := mxtPins[t.idx%len(mxtPins)]
	judgeMXTDoc(t, newMXTSink(), p.text, p.chunks)
}

func init() {
	register(&Prop{ID: "C16", Rule: "generated MXT documents (1 to 9 chunks, salts, look-alike marker lines, both line endings, any bytes in contents) read one after the other with the same grammar value, and mutations of documents (among them every byte and some rare runes at and in place of each position of templates) against an independent reader; non-trivial: more than one chunk, or any mutated text, distinct by text",
		Floors: []string{"chunk with salt field", "empty chunk", "marker line inside of salted content", "several chunks", "edited template", "moved run of tokens", "tiny text", "grammar used before", "rejected text", "read up to a broken chunk", "read completely", "giant text", "sentence of the own rules"},
		Assume: []string{"generated documents: comment without an arrow of its own, a content that ends in CR is not followed by LF (both can not be represented)", "harness/gmxt.go mxtRef for mutated texts (valid UTF-8)"},
		Suites: []Suite{{"pinned", len(mxtPins), len(mxtPins), runC16Pins}, {"moved runs", runEditCount(mxtRunTemplates), runEditCount(mxtRunTemplates), runC16Runs}, {"edited templates", editCount(mxtTemplates), editCount(mxtTemplates), runC16Edits}, {"tiny texts", sequences(len(mxtTiny), 4) * len(mxtHeads), sequences(len(mxtTiny), 6) * len(mxtHeads), runC16Tiny}, {"documents", 40000, 2000000, runC16}, {"mutated documents", 60000, 4000000, runC16Mut}, {"giants", 400, 15000, runC16Giant}, {"own sentences", 30000, 1500000, runC16Own}}})
}
