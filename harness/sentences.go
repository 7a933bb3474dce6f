package main

import (
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// Sentences of the grammars under test: their own rule lines (what the readers
// say they are built from) are read as productions and random texts are derived
// from them. A line does not show where a part of several readers ends, so that
// is guessed anew each time. The texts only steer: what they have to be is
// decided by the independent reference of each grammar.

type prodNode struct {
	op   string // lit fold set holey any skip ref none, prefix: * + ? @ ! -> --> n*, body, janus, last
	s    string // literal, name, singles or holes
	rs   []rune // ranges
	n    int
	kids []*prodNode // any: items, skip: first the skipped, prefix: one
}

type prodParser struct {
	s string
	p int
}

func (p *prodParser) rest() string { return p.s[p.p:] }

func (p *prodParser) eat(x string) bool {
	if strings.HasPrefix(p.rest(), x) {
		p.p += len(x)
		return true
	}
	return false
}

// quoted reads a Go quoted literal.
func (p *prodParser) quoted() string {
	q, err := strconv.QuotedPrefix(p.rest())
	if err != nil {
		p.p++
		return ""
	}
	p.p += len(q)
	v, _ := strconv.Unquote(q)
	return v
}

// char reads one rune of a range.
func (p *prodParser) char() rune {
	r, _, tail, err := strconv.UnquoteChar(p.rest(), '\'')
	if err != nil {
		r, n := utf8.DecodeRuneInString(p.rest())
		p.p += imax(n, 1)
		return r
	}
	p.p = len(p.s) - len(tail)
	return r
}

func (p *prodParser) done() bool { return p.p >= len(p.s) }

func (p *prodParser) list(ends ...string) []*prodNode {
	l := []*prodNode{}
	for !p.done() {
		if p.eat(" ") {
			continue
		}
		for _, e := range ends {
			if p.eat(e) {
				return l
			}
		}
		l = append(l, p.item())
	}
	return l
}

func (p *prodParser) item() *prodNode {
	if p.done() {
		return &prodNode{op: "none"}
	}
	c := p.s[p.p]
	switch {
	case c == '"' || c == '\'':
		return &prodNode{op: "lit", s: p.quoted()}
	case p.eat("~"):
		return &prodNode{op: "fold", s: p.quoted()}
	case strings.HasPrefix(p.rest(), "[\""):
		p.p++
		n := &prodNode{op: "set", s: p.quoted()}
		p.eat("]")
		return n
	case p.eat("[<"):
		n := &prodNode{op: "set"}
		for !p.done() && !p.eat(" >]") {
			if !p.eat(" ") {
				p.p++
				continue
			}
			if strings.HasPrefix(p.rest(), "\"") {
				n.s = p.quoted()
				continue
			}
			a := p.char()
			n.rs = append(n.rs, a, p.char())
		}
		return n
	case p.eat("[ "):
		return &prodNode{op: "any", kids: p.list("]")}
	case p.eat("(>"):
		sk := p.item()
		p.eat(">")
		return &prodNode{op: "skip", kids: append([]*prodNode{sk}, p.list(")")...)}
	case p.eat("("):
		in := p.item()
		n := &prodNode{op: "holey", rs: in.rs}
		if in.op == "lit" {
			r, _ := utf8.DecodeRuneInString(in.s)
			n.rs = []rune{r, r}
		}
		p.eat(" - ")
		n.s = p.quoted()
		p.eat(")")
		return n
	case p.eat("<"):
		a := p.char()
		n := &prodNode{op: "set", rs: []rune{a, p.char()}}
		p.eat(">")
		return n
	case p.eat("-("):
		n := &prodNode{op: "body", kids: []*prodNode{p.item()}}
		p.eat("-+")
		p.eat("-")
		n.kids = append(n.kids, p.item())
		p.list(")-")
		return n
	case p.eat("@END"):
		return &prodNode{op: "none"}
	case p.eat("$"):
		a := p.p
		for !p.done() && strings.IndexByte(" <)]", p.s[p.p]) < 0 {
			p.p++
		}
		name := p.s[a:p.p]
		if p.eat("<") {
			return &prodNode{op: "janus", s: name, kids: []*prodNode{p.item()}}
		}
		return &prodNode{op: "last", s: name}
	}
	for _, o := range []string{"-->", "->", "*", "+", "?", "@", "!"} {
		if p.eat(o) {
			return &prodNode{op: o, kids: []*prodNode{p.item()}}
		}
	}
	a := p.p
	for !p.done() && strings.IndexByte(" )]>", p.s[p.p]) < 0 {
		if p.p > a && p.s[p.p] == '-' && p.p+1 < len(p.s) && strings.IndexByte("\"'[<(*+?@!-$", p.s[p.p+1]) >= 0 {
			break
		}
		p.p++
		if p.s[p.p-1] == '*' {
			if n, err := strconv.Atoi(p.s[a : p.p-1]); err == nil {
				return &prodNode{op: "n*", n: n, kids: []*prodNode{p.item()}}
			}
		}
	}
	if p.p == a {
		p.p++
	}
	return &prodNode{op: "ref", s: p.s[a:p.p]}
}

func productions(lines []string) map[string][]*prodNode {
	m := map[string][]*prodNode{}
	for _, l := range lines {
		if i := strings.Index(l, ": "); i >= 0 {
			p := &prodParser{s: l, p: i + 2}
			m[l[:i]] = p.list()
		}
	}
	return m
}

// sentence derives a text.
type sentence struct {
	t    *T
	m    map[string][]*prodNode
	b    strings.Builder
	fuel int
	tame int // how seldom the end of a part is guessed
	last map[string]string
}

func (g *sentence) rule(name string) {
	g.fuel--
	if l, ok := g.m[name]; ok {
		g.seq(l, len(l))
	} else {
		g.b.WriteString(name)
	}
}

func (g *sentence) skip(n *prodNode) {
	switch {
	case g.fuel > 0 && g.t.P(1, 8):
		g.one(n)
	case g.t.P(2, 3):
		g.b.WriteString(" ")
	}
}

func (g *sentence) rune(n *prodNode) {
	for i := 0; i < 8; i++ {
		var r rune
		single := []rune{}
		if n.op == "set" {
			single = []rune(n.s)
		}
		k := g.t.N(len(n.rs)/2 + len(single) + 1)
		switch {
		case 2*k+1 < len(n.rs):
			a, z := n.rs[2*k], n.rs[2*k+1]
			switch g.t.N(8) {
			case 0:
				r = a
			case 1:
				r = z
			case 2:
				r = a + rune(g.t.N(int(z-a)/3+1))
			default:
				if a <= ' ' && z > 'z' {
					r = rune(g.t.In(' ', '~'))
				} else if z > a {
					r = a + rune(g.t.N(imin(int(z-a)+1, 90)))
				} else {
					r = a
				}
			}
		case len(single) > 0:
			r = single[g.t.N(len(single))]
		default:
			continue
		}
		if n.op == "holey" && strings.ContainsRune(n.s, r) {
			continue
		}
		g.b.WriteRune(r)
		return
	}
}

// seq derives a list, limit is the number of items that may be used.
func (g *sentence) seq(l []*prodNode, limit int) {
	for i := 0; i < limit; {
		n := l[i]
		i++
		if strings.IndexByte("*+?@!-n", n.op[0]) < 0 || n.op == "none" {
			g.one(n)
			continue
		}
		// the part of a prefix may go on
		z := i
		for z < limit && g.t.P(1, g.tame) {
			z++
		}
		body := func() { g.one(n.kids[0]); g.seq(l[i:z], z-i) }
		switch n.op {
		case "*", "+":
			k := g.t.N(4)
			if n.op == "+" {
				k++
			}
			for ; k > 0 && (g.fuel > 0 || n.op == "+"); k-- {
				g.fuel--
				body()
				if g.fuel <= 0 {
					break
				}
			}
		case "?":
			if g.fuel > 0 && g.t.P(1, 2) {
				body()
			}
		case "n*":
			for k := n.n; k > 0 && k < 100; k-- {
				g.one(n.kids[0])
			}
			z = i
		case "@", "!":
			if g.t.P(7, 8) {
				z = i
			}
		case "->", "-->":
			for k := g.t.few(0, 4); k > 0; k-- {
				g.b.WriteString(g.t.Str([]string{"a", " ", "]", "=", "-", "\\", "x y", "é"}))
			}
			if n.op == "-->" {
				body()
			} else {
				z = i
			}
		}
		i = z
	}
}

func (g *sentence) one(n *prodNode) {
	switch n.op {
	case "lit", "fold":
		g.b.WriteString(n.s)
	case "set", "holey":
		g.rune(n)
	case "any":
		if len(n.kids) == 0 {
			return
		}
		i := g.t.N(len(n.kids))
		z := i + 1
		if g.t.P(1, g.tame) {
			z = imin(len(n.kids), z+g.t.In(1, 4))
		}
		if g.fuel <= 0 { // end quickly
			for j := 0; j < 4 && n.kids[i].op != "lit" && n.kids[i].op != "set"; j++ {
				i = g.t.N(len(n.kids))
			}
			z = i + 1
			if g.b.Len() > 4000 || g.fuel < -300 {
				return
			}
		}
		g.fuel--
		g.seq(n.kids[i:z], z-i)
	case "skip":
		g.fuel--
		if len(n.kids) == 0 || g.fuel < -300 {
			return
		}
		for i := range n.kids[1:] {
			g.skip(n.kids[0])
			g.seq(n.kids[1+i:2+i], 1)
		}
		g.skip(n.kids[0])
	case "ref":
		if g.fuel > -300 {
			g.rule(n.s)
		}
	case "body":
		g.one(n.kids[0])
		g.one(n.kids[1])
	case "janus":
		a := g.b.Len()
		g.one(n.kids[0])
		g.last[n.s] = g.b.String()[a:]
	case "last":
		g.b.WriteString(g.last[n.s])
	case "none":
	default:
		g.seq([]*prodNode{n}, 1)
	}
}

func (t *T) sentence(m func() map[string][]*prodNode, fuel int, rule string) string {
	g := &sentence{t: t, m: m(), fuel: fuel, tame: 2 + 6*t.N(2), last: map[string]string{}}
	g.rule(rule)
	return g.b.String()
}

var prodsOnce sync.Once
var jsonProds, mxtProds, luaProds map[string][]*prodNode

// loadProds reads the lines; a grammar that cannot be built is left to others.
func loadProds() {
	prodsOnce.Do(func() {
		load := func(g func() []*tok.Rule) (m map[string][]*prodNode) {
			defer func() { recover() }()
			return productions(tok.GrammarLines(g()))
		}
		jsonProds = load(func() []*tok.Rule { return grammar.JSON().Grammar() })
		mxtProds = load(func() []*tok.Rule { return grammar.MXT().Grammar() })
		luaProds = load(func() []*tok.Rule { return grammar.Lua().Grammar() })
	})
}

func jsonRules() map[string][]*prodNode { loadProds(); return jsonProds }
func mxtRules() map[string][]*prodNode  { loadProds(); return mxtProds }
func luaRules() map[string][]*prodNode  { loadProds(); return luaProds }

func runC15Own(t *T) {
	text := ""
	if t.P(1, 2) {
		text = t.sentence(jsonRules, t.In(2, 40), "element")
	} else { // in the place of an element of a document
		text = t.jsonText(t.In(2, 20))
		ref := &jsonRef{s: text}
		if ref.element(0) >= 0 && len(ref.spans) > 0 {
			sp := ref.spans[t.N(len(ref.spans))]
			text = text[:sp.from] + t.sentence(jsonRules, t.In(2, 14), sp.info) + text[sp.to:]
		}
	}
	judgeJSON(t, text, t.P(3, 4))
	t.Obs("sentence of the own rules")
}

func runC16Own(t *T) {
	judgeMXTText(t, strings.ToValidUTF8(t.sentence(mxtRules, t.In(2, 60), "chunks"), "?"))
	t.Obs("sentence of the own rules")
}

var luaHosts = [][2]string{{"Name", "x=@"}, {"Numeral", "x=@"}, {"Numeral", "x=1+@+1"}, {"LiteralString", "x=@"}, {"LiteralString", "f@"}, {"Comment", "@"}, {"Comment", "x=@1"}, {"unop", "x=@1"}, {"binop", "x=a@b"}, {"fieldsep", "x={1@2}"}, {"field", "x={@}"}, {"fieldlist", "x={@}"},
	{"tableconstructor", "x=@"}, {"tableconstructor", "f@"}, {"funcparams", "function f(@)end"}, {"funcbody", "function f@"}, {"funcdef", "x=@"}, {"funcargs", "f@"}, {"funccall", "@"}, {"funccall", "x=@"}, {"prefixexp", "x=@"}, {"finalexp", "x=@"}, {"exp", "x=@"}, {"exp", "if @ then end"}, {"explist", "return @"}, {"namelist", "local @"}, {"namelist", "for @ in x do end"},
	{"varsuffix", "x@=1"}, {"var", "@=1"}, {"varlist", "@=1"}, {"funcname", "function @() end"}, {"label", "@"}, {"retstat", "@"}, {"attrib", "local x @ =1"}, {"attnamelist", "local @"}, {"break", "@"}, {"goto", "@"}, {"do", "@"}, {"while", "@"}, {"repeat", "@"}, {"ifelse", "@"}, {"for", "@"}, {"foreach", "@"}, {"func", "@"}, {"localfunc", "@"}, {"localatt", "@"}, {"stat", "@"}, {"stat", "do @ end"}, {"block", "@"}, {"block", "while x do @ end"}, {"chunk", "@"}, {"script", "@"}}

func runC17Own(t *T) {
	text := ""
	if k := t.N(3); k == 0 {
		text = t.sentence(luaRules, t.In(4, 60), "chunk")
	} else if k == 1 { // one rule in a place where it may be
		h := luaHosts[t.N(len(luaHosts))]
		text = strings.Replace(h[1], "@", t.sentence(luaRules, t.In(1, 16), h[0]), 1)
	} else { // in the place of a token
		p := t.luaProgram(t.In(0, 2), t.In(3, 20), t.In(1, 2))
		text = p.text
		k := []int{}
		for i, x := range p.toks {
			if x.k == lkName || x.k == lkNumber || x.k == lkString || t.P(1, 10) {
				k = append(k, i)
			}
		}
		if len(k) > 0 {
			i := k[t.N(len(k))]
			rule := map[int]string{int(lkName): "Name", int(lkNumber): "Numeral", int(lkString): "LiteralString"}[int(p.toks[i].k)]
			if rule == "" || t.P(1, 8) {
				rule = t.Str([]string{"Comment", "Numeral", "LiteralString", "unop", "binop", "exp", "stat", "field", "funcargs", "varsuffix", "label", "attrib", "retstat", "funcparams"})
			}
			text = text[:p.from[i]] + t.sentence(luaRules, t.In(2, 14), rule) + text[p.to[i]:]
		}
	}
	judgeLuaText(t, text)
	t.Obs("sentence of the own rules")
}
