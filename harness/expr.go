package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// ------------------------------------------------------------------ expressions

type kind int

const (
	kLit kind = iota
	kRune
	kFold
	kAnyRune
	kBetween
	kBetweenAny
	kSet
	kBuild
	kHoley
	kDigit
	kHexDigit
	kWS
	kNL
	kMatch
	kAtEnd
	kRuleName
	kBool
	kInt
	kUint
	kWrap
	kInvalid
	// composed
	kAny
	kAnyFold
	kSeq
	kSkipSeq
	kSkipWSSeq
	kMany
	kZom
	kOpt
	kTimes
	kAt
	kNot
	kTo
	kPast
	kBody
	kBodyTail
	kNamed
	kMap
	kPick
	kMonitor
	kRef
	numKinds
)

var kindNames = []string{"Lit", "Rune", "Fold", "AnyRune", "Between", "BetweenAny", "Set", "BuildBetweenAny", "Holey", "Digit", "HexDigit", "WS", "NL", "Match", "AtEnd", "RuleName", "Bool", "Int", "Uint", "Wrap", "Invalid",
	"Any", "AnyFold", "Seq", "SkipSeq", "SkipWSSeq", "Many", "Zom", "Opt", "Times", "At", "Not", "To", "Past", "Body", "BodyTail", "Named", "Map", "Pick", "Monitor", "Ref"}

// Expr describes a reader; it is built into a tok.Reader and evaluated by the
// reference semantics below.
type Expr struct {
	k    kind
	id   int
	s    string   // literal, set, name
	strs []string // AnyFold
	rs   []rune   // ranges, min max
	n, m int      // counts, base, bits
	bare bool     // hand rune/string children over as plain values
	f    func(rune) bool
	subs []*Expr
	hole bool // a literal that is built as built.hole (the end of a Janus pair)
}

func (e *Expr) String() string {
	a := []string{}
	switch e.k {
	case kLit, kFold, kAnyRune, kBool, kNamed, kMatch, kInvalid:
		a = append(a, fmt.Sprintf("%q", e.s))
	case kRune:
		a = append(a, fmt.Sprintf("%U", e.rs[0]))
	case kBetween, kBuild, kBetweenAny:
		a = append(a, fmt.Sprintf("%U", e.rs))
	case kSet, kHoley:
		a = append(a, fmt.Sprintf("%U", e.rs), fmt.Sprintf("%q", e.s))
	case kInt, kUint:
		a = append(a, fmt.Sprint(e.n), fmt.Sprint(e.m))
	case kWrap:
		a = append(a, fmt.Sprintf("%q", e.s), fmt.Sprint(e.n), fmt.Sprint(e.m))
	case kTimes:
		a = append(a, fmt.Sprint(e.n), fmt.Sprint(e.m))
	case kAnyFold:
		a = append(a, fmt.Sprintf("%q", e.strs))
	case kRef:
		a = append(a, fmt.Sprint(e.n))
	}
	for _, s := range e.subs {
		a = append(a, s.String())
	}
	return kindNames[e.k] + "(" + strings.Join(a, ", ") + ")"
}

// scribble writes over a list that was given to a constructor: it belongs to the caller.
func scribble(l []interface{}) {
	for i := range l {
		l[i] = tok.InvalidReader("scribbled")
	}
}

// oddName is a description that looks like none.
func (t *T) oddName() string {
	return t.Str([]string{"", " ", "a b", "\"", "é", "rule0", "\n", "%d", "%!", "\xff", "!", "'a'", "at 3", "\x00"})
}

// Prog is a set of recursive rules with a start expression.
type Prog struct {
	start *Expr
	rules []*Expr
	nodes []*Expr
}

func (p *Prog) String() string {
	b := p.start.String()
	for i, r := range p.rules {
		b += fmt.Sprintf("\n  rule%d = %s", i, r.String())
	}
	return b
}

func (p *Prog) number() {
	p.nodes = nil
	var walk func(e *Expr)
	walk = func(e *Expr) {
		e.id = len(p.nodes)
		p.nodes = append(p.nodes, e)
		for _, s := range e.subs {
			walk(s)
		}
	}
	walk(p.start)
	for _, r := range p.rules {
		walk(r)
	}
}

func (p *Prog) has(ks ...kind) bool {
	for _, n := range p.nodes {
		for _, k := range ks {
			if n.k == k {
				return true
			}
		}
	}
	return false
}

// ------------------------------------------------------------------- generation

type genCfg struct {
	observers bool // Map, Pick, Monitor
	values    bool // Bool, Int, Uint (state in the reader)
	invalid   bool
	noBody    bool
	alpha     []string
}

func (t *T) drawAlpha() []string {
	n := t.In(2, 6)
	if t.P(1, 8) {
		n = t.In(7, 16)
	}
	a := make([]string, n)
	for i := range a {
		switch t.N(4) {
		case 0:
			a[i] = t.atom()
		default:
			a[i] = t.Str([]string{"a", "b", "ab", "é", "0", "7", " ", "\n", "\r\n", "A", "-", "x", "K", "\xff", "12", "true", "語"})
		}
	}
	return a
}

func (t *T) alphaRune(c *genCfg) rune {
	r, w := decFwd(t.Str(c.alpha))
	if w == 0 || (r == utf8.RuneError && w == 1) {
		return 'a'
	}
	return r
}

// setShape gives a rune set now and then the look of a range or class.
func (t *T) setShape(s string, c *genCfg) string {
	if !t.P(1, 12) {
		return s
	}
	a, b := t.alphaRune(c), t.alphaRune(c)
	if a > b {
		a, b = b, a
	}
	r := string(a) + "-" + string(b)
	switch t.N(6) {
	case 0, 1:
		return r
	case 2:
		return r + s
	case 3:
		return s + r
	case 4:
		return "^" + s
	}
	return t.Str([]string{"-" + s, s + "-", "\\" + s, "[" + s + "]", r + r, "." + s, "*", "--", "^-", "a-z", "0-9", "\\d", "\\w"})
}

func (t *T) leaf(c *genCfg) *Expr {
	for {
		k := kind(t.N(int(kInvalid) + 1))
		e := &Expr{k: k}
		switch k {
		case kLit:
			e.s = t.Str(c.alpha)
			if t.P(1, 4) {
				e.s += t.Str(c.alpha)
			}
			if t.P(1, 20) {
				for i := t.In(2, 12); i > 0; i-- {
					e.s += t.Str(c.alpha)
				}
			}
			if t.P(1, 30) {
				e.s = ""
			}
		case kFold:
			e.s = t.Str(c.alpha)
			for i := t.few(0, 8); i > 0; i-- {
				e.s += t.Str(c.alpha)
			}
			e.s = validPattern(t.swapCase(e.s))
		case kRune:
			e.rs = []rune{t.alphaRune(c)}
		case kAnyRune:
			for i := t.few(3, 12); i >= 0; i-- {
				e.s += string(t.alphaRune(c))
			}
			e.s = t.setShape(e.s, c)
		case kBetween:
			a, b := t.alphaRune(c), t.alphaRune(c)
			if a > b && t.P(9, 10) {
				a, b = b, a
			}
			e.rs = []rune{a, b}
		case kBetweenAny, kBuild, kSet:
			for i := t.few(2, 10); i > 0; i-- {
				a, b := t.alphaRune(c), t.alphaRune(c)
				if a > b && t.P(19, 20) {
					a, b = b, a
				}
				e.rs = append(e.rs, a, b)
			}
			if k == kSet {
				for i := t.few(2, 10); i > 0; i-- {
					e.s += string(t.alphaRune(c))
				}
				e.s = t.setShape(e.s, c)
			}
		case kHoley:
			a, b := t.alphaRune(c), t.alphaRune(c)
			if a > b {
				a, b = b, a
			}
			if t.P(1, 2) {
				a, b = 0, utf8.MaxRune
			}
			e.rs = []rune{a, b}
			for i := t.few(2, 10); i > 0; i-- {
				e.s += string(t.alphaRune(c))
			}
			e.s = t.setShape(e.s, c)
		case kMatch:
			p := t.drawPred(strings.Join(c.alpha, ""), 0)
			e.s, e.f = "match "+p.name, p.f
			if t.P(1, 8) {
				e.s = t.oddName()
			}
		case kBool:
			if !c.values {
				continue
			}
			e.s = t.Str([]string{"", "*", "l", "U", "Cc"})
		case kInt, kUint:
			if !c.values {
				continue
			}
			e.n, e.m = []int{8, 10, 16}[t.N(3)], []int{8, 16, 32, 64}[t.N(4)]
		case kWrap:
			// moves n runes, then fails if m is 1
			e.n, e.m, e.s = t.N(3), t.N(2), "wrapped"
			if t.P(1, 8) {
				e.s = t.oddName()
			}
		case kInvalid:
			if !c.invalid || t.P(3, 4) {
				continue
			}
			e.s = "inv"
		}
		return e
	}
}

func (t *T) expr(c *genCfg, depth int, nrules int) *Expr {
	if depth <= 0 || t.P(1, 6) {
		if nrules > 0 && t.P(1, 3) {
			return &Expr{k: kRef, n: t.N(nrules)}
		}
		return t.leaf(c)
	}
	sub := func() *Expr { return t.expr(c, depth-1, nrules) }
	for {
		k := kind(t.In(int(kAny), int(kRef)))
		e := &Expr{k: k, bare: t.P(1, 2)}
		switch k {
		case kAny, kSeq, kSkipWSSeq:
			n := t.In(1, 4)
			if t.P(1, 40) {
				n = 0
			}
			if t.P(1, 12) { // many simple parts
				n = 5 + t.few(9, 40)
				sub = func() *Expr { return t.expr(c, t.N(2), nrules) }
			}
			if k == kAny && t.P(1, 8) { // words that begin like each other
				e.bare = t.P(3, 4)
				e.subs = t.related(c)
				return e
			}
			for i := 0; i < n; i++ {
				e.subs = append(e.subs, sub())
			}
		case kSkipSeq:
			skip := sub()
			if t.P(2, 3) { // usually a skip that can be empty
				skip = &Expr{k: []kind{kZom, kOpt}[t.N(2)], subs: []*Expr{skip}}
			}
			e.subs = append(e.subs, skip)
			for i := t.few(3, 9); i > 0; i-- {
				e.subs = append(e.subs, sub())
			}
		case kAnyFold:
			for i := t.few(3, 9); i > 0; i-- {
				w := t.Str(c.alpha)
				for j := t.N(3); j > 0; j-- {
					w += t.Str(c.alpha)
				}
				if len(e.strs) > 0 && t.P(1, 3) {
					w = e.strs[t.N(len(e.strs))]
					if t.P(1, 2) {
						w += t.Str(c.alpha)
					}
				}
				e.strs = append(e.strs, validPattern(t.swapCase(w)))
			}
		case kTimes:
			e.n = t.In(-1, 4)
			if t.P(1, 10) {
				e.n = t.Size(40)
			}
			e.subs = []*Expr{sub()}
		case kBody, kBodyTail:
			if c.noBody {
				continue
			}
			e.subs = []*Expr{sub(), sub()}
			if t.P(1, 3) {
				e.subs[0] = &Expr{k: kZom, subs: []*Expr{e.subs[0]}}
			}
		case kMap, kPick, kMonitor:
			if !c.observers {
				continue
			}
			e.subs = []*Expr{sub()}
		case kNamed:
			e.s = fmt.Sprintf("named%d", t.N(9))
			if t.P(1, 8) {
				e.s = t.oddName()
			}
			e.subs = []*Expr{sub()}
		case kRef:
			if nrules == 0 {
				continue
			}
			e.n = t.N(nrules)
		default:
			e.subs = []*Expr{sub()}
		}
		return e
	}
}

func (t *T) related(c *genCfg) []*Expr {
	l := []*Expr{}
	w := t.Str(c.alpha) + t.Str(c.alpha)
	for i := t.In(2, 5); i > 0; i-- {
		switch t.N(4) {
		case 0:
			w += t.Str(c.alpha)
		case 1:
			w = w[:t.Position(w)]
		case 2:
			w = t.Str(c.alpha)
		}
		l = append(l, &Expr{k: kLit, s: w})
		if t.P(1, 6) {
			l[len(l)-1].k = kFold
			l[len(l)-1].s = validPattern(t.swapCase(w))
		}
	}
	return l
}

func (t *T) prog(c *genCfg, depth int) *Prog {
	if c.alpha == nil {
		c.alpha = t.drawAlpha()
	}
	nr := 0
	if t.P(1, 3) {
		nr = 1 + t.few(2, 8)
	}
	p := &Prog{start: t.expr(c, depth, nr)}
	for i := 0; i < nr; i++ {
		p.rules = append(p.rules, t.expr(c, imax(1, depth-1), nr))
	}
	p.number()
	return p
}

// sample writes a text that the expression is likely to read.
func (t *T) sample(p *Prog, c *genCfg, e *Expr, b *strings.Builder, fuel *int) {
	*fuel--
	if *fuel < 0 || b.Len() > 4000 {
		return
	}
	rep := func(min int) {
		for i := min + t.Size(imin(*fuel, 60)); i > 0; i-- {
			t.sample(p, c, e.subs[0], b, fuel)
		}
	}
	junk := func() {
		for i := t.Size(imin(*fuel, 40)); i > 0; i-- {
			b.WriteString(t.Str(c.alpha))
		}
	}
	switch e.k {
	case kLit:
		b.WriteString(e.s)
	case kRune:
		b.WriteRune(e.rs[0])
	case kFold:
		b.WriteString(t.swapCase(e.s))
	case kAnyRune:
		l := runesOf(e.s)
		if len(l) > 0 {
			b.WriteRune(t.Rune(l))
		}
	case kBetween, kBetweenAny, kBuild, kSet, kHoley:
		n := len(e.rs) / 2
		if e.k == kHoley {
			for i := 0; i < 5; i++ {
				r := t.alphaRune(c)
				if r >= e.rs[0] && r <= e.rs[1] && !strings.ContainsRune(e.s, r) {
					b.WriteRune(r)
					return
				}
			}
			return
		}
		if n == 0 || (e.k == kSet && e.s != "" && t.P(1, 2)) {
			l := runesOf(e.s)
			if len(l) > 0 {
				b.WriteRune(t.Rune(l))
			}
			return
		}
		i := t.N(n)
		a, z := e.rs[2*i], e.rs[2*i+1]
		if a > z {
			return
		}
		switch t.N(3) {
		case 0:
			b.WriteRune(a)
		case 1:
			b.WriteRune(z)
		default:
			b.WriteRune(a + rune(t.N(int(z-a)+1)))
		}
	case kDigit:
		b.WriteByte("0123456789"[t.N(10)])
	case kHexDigit:
		b.WriteByte("0123456789abcdefABCDEF"[t.N(22)])
	case kWS:
		b.WriteByte(" \r\n\t"[t.N(4)])
	case kNL:
		b.WriteString(t.Str([]string{"\n", "\r\n"}))
	case kMatch, kWrap:
		b.WriteString(t.Str(c.alpha))
	case kRuleName:
		b.WriteString(t.Str([]string{"a", "Zx", "q-1", "b+._"}))
	case kBool:
		b.WriteString(t.Str([]string{"true", "false", "True", "False", "TRUE", "FALSE"}))
	case kInt, kUint:
		b.WriteString(t.Str([]string{"1", "-7", "+12", "127", "128", "255", "256", "32767", "99999999999999999999999", "7f", "08"}))
	case kAny:
		if len(e.subs) > 0 {
			t.sample(p, c, e.subs[t.N(len(e.subs))], b, fuel)
		}
	case kAnyFold:
		if len(e.strs) > 0 {
			b.WriteString(t.swapCase(t.Str(e.strs)))
		}
	case kSeq:
		for _, s := range e.subs {
			t.sample(p, c, s, b, fuel)
		}
	case kSkipWSSeq:
		ws := func() {
			for i := t.N(3); i > 0; i-- {
				b.WriteByte(" \r\n\t"[t.N(4)])
			}
		}
		ws()
		for _, s := range e.subs {
			t.sample(p, c, s, b, fuel)
			ws()
		}
	case kSkipSeq:
		t.sample(p, c, e.subs[0], b, fuel)
		for _, s := range e.subs[1:] {
			t.sample(p, c, s, b, fuel)
			t.sample(p, c, e.subs[0], b, fuel)
		}
	case kMany:
		rep(1)
	case kZom:
		rep(0)
	case kOpt:
		if t.P(2, 3) {
			rep(0)
		}
	case kTimes:
		for i := 0; i < e.n; i++ {
			t.sample(p, c, e.subs[0], b, fuel)
		}
	case kNot:
		b.WriteString(t.Str(c.alpha))
	case kTo, kPast:
		junk()
		t.sample(p, c, e.subs[0], b, fuel)
	case kBody, kBodyTail:
		t.sample(p, c, e.subs[0], b, fuel)
		t.sample(p, c, e.subs[1], b, fuel)
	case kRef:
		t.sample(p, c, p.rules[e.n], b, fuel)
	case kAt, kNamed, kMap, kPick, kMonitor:
		t.sample(p, c, e.subs[0], b, fuel)
	}
}

// progText draws a text for the program and a start position.
func (t *T) progText(p *Prog, c *genCfg, size int) (string, int) {
	if t.giant {
		return t.giantText()
	}
	var b strings.Builder
	fuel := size
	if t.P(1, 10) {
		for i := t.Size(size); i > 0; i-- {
			b.WriteString(t.Str(c.alpha))
		}
	} else {
		t.sample(p, c, p.start, &b, &fuel)
	}
	text := b.String()
	if t.P(1, 2) {
		text = t.mutate(text, c.alpha)
	}
	if t.P(1, 3) {
		text += t.Str(c.alpha)
	}
	pos := 0
	if t.P(1, 4) {
		pre := ""
		for i := t.In(1, 4); i > 0; i-- {
			pre += t.Str(c.alpha)
		}
		text = pre + text
		pos = len(pre)
		if t.P(1, 5) {
			pos = t.In(0, len(text))
		}
	} else if t.P(1, 16) { // far into a text
		pos = t.far(len(text))
		text = strings.Repeat("~", pos) + text
	}
	return text, pos
}

// far: a length such that the following n bytes are near or across a power of two
func (t *T) far(n int) int {
	p := t.In(7, 9)
	if t.P(1, 8) {
		p = t.In(10, 16)
	}
	l := 1<<uint(p) - t.In(0, n+1)
	if l < 0 {
		return 0
	}
	return l
}

func (t *T) mutate(text string, alpha []string) string {
	for i := t.In(1, 3); i > 0; i-- {
		a := t.In(0, len(text))
		z := imin(len(text), a+t.In(0, 3))
		switch t.N(5) {
		case 0:
			text = text[:a] + text[z:]
		case 1:
			text = text[:a] + t.Str(alpha) + text[a:]
		case 2:
			text = text[:a] + t.Str(alpha) + text[z:]
		case 3:
			text = text[:a] + text[a:z] + text[a:z] + text[z:]
		default:
			text = text[:a]
		}
	}
	return text
}

// --------------------------------------------------------------------- reference

// rerr is the failure the reference expects.
type rerr struct {
	pos   int
	whats []string // accepted descriptions
	other bool     // no read error (invalid reader)
}

type pickRec struct {
	info     string
	from, to int
}

// callKey is one read of a node as the reference sees it (to -1: it fails).
type callKey struct{ id, from, to int }

type model struct {
	ids   map[int]bool
	p     *Prog
	text  string
	b     *built
	fuel  int
	skip  bool // left recursion or out of fuel: no verdict
	deep  int
	stack map[[2]int]bool
	picks []pickRec
	gone  []pickRec // picks of abandoned branches
	maps  []callKey // map calls of the final derivation
	calls map[callKey]bool
	steps int
	seen  map[kind]int
	fails map[kind]int
}

func newModel(p *Prog, b *built, text string) *model {
	return &model{p: p, text: text, b: b, fuel: 30000, stack: map[[2]int]bool{}, calls: map[callKey]bool{}, seen: map[kind]int{}, fails: map[kind]int{}}
}

type journal struct{ picks, maps int }

func (m *model) mark() journal { return journal{len(m.picks), len(m.maps)} }

func (m *model) drop(j journal) {
	m.gone = append(m.gone, m.picks[j.picks:]...)
	m.picks = m.picks[:j.picks]
	m.maps = m.maps[:j.maps]
}

func (m *model) err(e *Expr, pos int) *rerr {
	return &rerr{pos: pos, whats: []string{m.b.what(e)}}
}

func (m *model) runeIf(e *Expr, pos, end int, f func(rune) bool) (int, *rerr) {
	r, w := decFwd(m.text[pos:end])
	if w > 0 && f(r) {
		return pos + w, nil
	}
	return pos, m.err(e, pos)
}

func inRanges(rs []rune, r rune) bool {
	for i := 0; i+1 < len(rs); i += 2 {
		if rs[i] <= r && r <= rs[i+1] {
			return true
		}
	}
	return false
}

// eval gives the position behind the match, or the failure; on failure all
// picks made inside are dropped.
func (m *model) eval(e *Expr, pos, end int) (int, *rerr) {
	if m.skip {
		return pos, &rerr{}
	}
	m.fuel--
	m.steps++
	m.deep++
	defer func() { m.deep-- }()
	if m.fuel < 0 || m.deep > 20000 {
		m.skip = true
		return pos, &rerr{}
	}
	np := m.mark()
	n, err := m.eval1(e, pos, end)
	if err != nil {
		m.drop(np)
		m.fails[e.k]++
		m.calls[callKey{e.id, pos, -1}] = true
		return pos, err
	}
	m.seen[e.k]++
	m.calls[callKey{e.id, pos, n}] = true
	return n, nil
}

func (m *model) eval1(e *Expr, pos, end int) (int, *rerr) {
	tail := m.text[pos:end]
	switch e.k {
	case kLit:
		if strings.HasPrefix(tail, e.s) {
			return pos + len(e.s), nil
		}
		return pos, m.err(e, pos)
	case kFold:
		if n := foldPrefixLen(tail, e.s); n >= 0 {
			return pos + n, nil
		}
		return pos, m.err(e, pos)
	case kRune:
		return m.runeIf(e, pos, end, func(r rune) bool { return r == e.rs[0] })
	case kAnyRune:
		l := runesOf(e.s)
		return m.runeIf(e, pos, end, func(r rune) bool { return hasRune(l, r) })
	case kBetween, kBetweenAny, kBuild:
		return m.runeIf(e, pos, end, func(r rune) bool { return inRanges(e.rs, r) })
	case kSet:
		l := runesOf(e.s)
		return m.runeIf(e, pos, end, func(r rune) bool { return inRanges(e.rs, r) || hasRune(l, r) })
	case kHoley:
		l := runesOf(e.s)
		return m.runeIf(e, pos, end, func(r rune) bool { return inRanges(e.rs, r) && !hasRune(l, r) })
	case kDigit:
		return m.runeIf(e, pos, end, func(r rune) bool { return r >= '0' && r <= '9' })
	case kHexDigit:
		return m.runeIf(e, pos, end, isHex)
	case kWS:
		return m.runeIf(e, pos, end, func(r rune) bool { return r == ' ' || r == '\r' || r == '\n' || r == '\t' })
	case kNL:
		if strings.HasPrefix(tail, "\n") {
			return pos + 1, nil
		}
		if strings.HasPrefix(tail, "\r\n") {
			return pos + 2, nil
		}
		// an alternative of two literals: the last one is reported
		return pos, &rerr{pos: pos, whats: []string{`"\r\n"`, `"\n"`, m.b.what(e)}}
	case kMatch:
		return m.runeIf(e, pos, end, e.f)
	case kAtEnd:
		if pos == end {
			return pos, nil
		}
		return pos, m.err(e, pos)
	case kRuleName:
		n := ruleNameLen(tail)
		if n == 0 {
			return pos, m.err(e, pos)
		}
		return pos + n, nil
	case kBool:
		if n, _ := modelBool(tail, e.s); n > 0 {
			return pos + n, nil
		}
		return pos, &rerr{pos: pos, whats: []string{"bool"}}
	case kInt:
		if n, _ := modelInt(tail, e.n, e.m, true); n > 0 {
			return pos + n, nil
		}
		return pos, &rerr{pos: pos, whats: []string{"integer"}}
	case kUint:
		if n, _ := modelInt(tail, e.n, e.m, false); n > 0 {
			return pos + n, nil
		}
		return pos, &rerr{pos: pos, whats: []string{"unsigned integer"}}
	case kWrap:
		p := pos
		for i := 0; i < e.n; i++ {
			_, w := decFwd(m.text[p:end])
			if w == 0 {
				break
			}
			p += w
		}
		if e.m == 1 {
			return pos, &rerr{pos: p, whats: []string{"wrapped"}}
		}
		return p, nil
	case kInvalid:
		return pos, &rerr{other: true}
	case kAny:
		var best *rerr
		for _, s := range e.subs {
			n, err := m.eval(s, pos, end)
			if err == nil {
				return n, nil
			}
			switch {
			case best == nil:
				best = err
			case err.other && best.other:
				best = err
			case err.other:
			case best.other || err.pos >= best.pos:
				best = err
			}
		}
		if best == nil {
			best = m.err(e, pos)
		}
		return pos, best
	case kAnyFold:
		var last string
		for _, s := range e.strs {
			if n := foldPrefixLen(tail, s); n >= 0 {
				return pos + n, nil
			}
			last = s
		}
		if len(e.strs) == 0 {
			return pos, m.err(e, pos)
		}
		return pos, &rerr{pos: pos, whats: []string{tok.Fold(last).What()}}
	case kSeq:
		p := pos
		for _, s := range e.subs {
			n, err := m.eval(s, p, end)
			if err != nil {
				return pos, err
			}
			p = n
		}
		return p, nil
	case kSkipSeq, kSkipWSSeq:
		subs := e.subs
		skip := func(p int) (int, *rerr) {
			for p < end && strings.IndexByte(" \r\n\t", m.text[p]) >= 0 {
				p++
			}
			return p, nil
		}
		if e.k == kSkipSeq {
			subs = e.subs[1:]
			skip = func(p int) (int, *rerr) { return m.eval(e.subs[0], p, end) }
		}
		p, err := skip(pos)
		if err != nil {
			return pos, err
		}
		for _, s := range subs {
			if p, err = m.eval(s, p, end); err != nil {
				return pos, err
			}
			if p, err = skip(p); err != nil {
				return pos, err
			}
		}
		return p, nil
	case kMany, kZom:
		p := pos
		for {
			n, err := m.eval(e.subs[0], p, end)
			if m.skip {
				return pos, &rerr{}
			}
			if err != nil || n == p {
				break
			}
			p = n
		}
		if e.k == kMany && p == pos {
			return pos, m.err(e, pos)
		}
		return p, nil
	case kOpt:
		n, _ := m.eval(e.subs[0], pos, end)
		return n, nil
	case kTimes:
		p := pos
		for i := 0; i < e.n; i++ {
			n, err := m.eval(e.subs[0], p, end)
			if err != nil {
				return pos, err
			}
			p = n
		}
		return p, nil
	case kAt:
		np := m.mark()
		_, err := m.eval(e.subs[0], pos, end)
		m.drop(np)
		return pos, err
	case kNot:
		np := m.mark()
		_, err := m.eval(e.subs[0], pos, end)
		m.drop(np)
		_, w := decFwd(tail)
		if err != nil && w == 0 {
			return pos, m.err(e, pos)
		}
		if err == nil {
			return pos, &rerr{pos: pos, whats: []string{m.b.what(e), m.b.what(e.subs[0])}}
		}
		return pos + w, nil
	case kTo, kPast, kBody, kBodyTail:
		sub := e.subs[0]
		if e.k == kBody || e.k == kBodyTail {
			sub = e.subs[1]
		}
		for p := pos; ; {
			np := m.mark()
			n, err := m.eval(sub, p, end)
			if m.skip {
				return pos, &rerr{}
			}
			if err == nil {
				switch e.k {
				case kTo:
					m.drop(np)
					return p, nil
				case kPast:
					return n, nil
				}
				m.drop(np)
				bn, berr := m.eval(e.subs[0], pos, p)
				if m.skip {
					return pos, &rerr{}
				}
				if berr != nil || bn != p {
					return pos, m.err(e, pos)
				}
				if e.k == kBody {
					return p, nil
				}
				n, err = m.eval(sub, p, end)
				if err != nil { // cannot happen: the same read succeeded before
					m.skip = true
					return pos, &rerr{}
				}
				return n, nil
			}
			_, w := decFwd(m.text[p:end])
			if w == 0 {
				return pos, m.err(e, pos)
			}
			p += w
		}
	case kNamed, kMonitor:
		return m.eval(e.subs[0], pos, end)
	case kMap:
		n, err := m.eval(e.subs[0], pos, end)
		if err == nil {
			m.maps = append(m.maps, callKey{e.id, pos, n})
		}
		return n, err
	case kPick:
		n, err := m.eval(e.subs[0], pos, end)
		if err == nil {
			m.picks = append(m.picks, pickRec{pickName(e), pos, n})
		}
		return n, err
	case kRef:
		key := [2]int{e.n, pos}
		if m.stack[key] {
			m.skip = true
			return pos, &rerr{}
		}
		m.stack[key] = true
		n, err := m.eval(m.p.rules[e.n], pos, end)
		delete(m.stack, key)
		return n, err
	}
	panic("unknown kind")
}

func pickName(e *Expr) string { return fmt.Sprintf("p%d", e.id) + oddEnd(e.id) }
func monName(e *Expr) string {
	return fmt.Sprintf("m%d", e.id) + strings.ReplaceAll(oddEnd(e.id/2), "\n", "|") // a log is printed line by line
}

// oddEnd: every other name has an end that formats, paths and lists could take as their own
func oddEnd(i int) string {
	if i%2 == 0 {
		return ""
	}
	odd := []string{"%", "%d", " ", ";", "[1-2)", "\n", "\xff", "é", "%%", ".", "\t@ 3", ":", strings.Repeat("long", 40), "\x00", "\"", "..."}
	return odd[i/2%len(odd)]
}

func isHex(r rune) bool {
	return r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F'
}

func ruleNameLen(s string) int {
	isL := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	if s == "" || !isL(s[0]) {
		return 0
	}
	n := 1
	for n < len(s) && (isL(s[n]) || s[n] >= '0' && s[n] <= '9' || strings.IndexByte("+-._", s[n]) >= 0) {
		n++
	}
	return n
}

// ----------------------------------------------------------------------- building

// probe is a reader of the harness around a built-in reader: it records every
// call at the boundary of the code under test.
type probe struct {
	e   *Expr
	sub tok.Reader
	b   *built
}

// call is one recorded read of a node.
type call struct {
	e          *Expr
	from, to   int
	err        error
	level      int
	sub        []int // indexes of the calls made by it
	done       bool
	monAt      int
	scannerLen int
}

func (p *probe) Read(s *tok.Scanner) error {
	b := p.b
	from := int(s.Mark())
	i := len(b.calls)
	if i > b.maxCalls {
		panic(tooMany{})
	}
	b.calls = append(b.calls, call{e: p.e, from: from, level: b.level, scannerLen: len(s.Head()) + len(s.Tail())})
	if len(b.open) > 0 {
		par := b.open[len(b.open)-1]
		b.calls[par].sub = append(b.calls[par].sub, i)
	}
	b.open = append(b.open, i)
	b.level++
	if b.hook != nil {
		b.hooked++
		b.hook(b.hooked)
	}
	err := p.sub.Read(s)
	if b.hook != nil {
		b.hooked++
		b.hook(b.hooked)
	}
	b.level--
	b.open = b.open[:len(b.open)-1]
	c := &b.calls[i]
	c.to, c.err, c.done = int(s.Mark()), err, true
	return err
}

func (p *probe) What() string { return p.sub.What() }

type tooMany struct{}

type mapEvent struct {
	id int
	t  tok.Token
}

// built is a program built into readers, with what its observers collected.
type built struct {
	p       *Prog
	plain   bool // leave Map, Pick, Monitor out
	probes  bool // a probe around every node
	nodes   []tok.Reader
	rules   []*tok.Rule
	start   tok.Reader
	basket  *tok.Basket
	log     *tok.Log
	events  []mapEvent
	calls   []call
	open    []int
	level   int
	ints    map[int]*tok.IntReader
	uints   map[int]*tok.UintReader
	bools   map[int]*tok.BoolReader
	whats   map[int]string
	wrapCnt int

	maxCalls int
	hole     tok.Reader
	hook     func(n int) // called before and after every probed read
	hooked   int
}

func (p *Prog) build(plain, probes bool) *built { return p.buildHole(plain, probes, nil) }

func (p *Prog) buildHole(plain, probes bool, hole tok.Reader) *built {
	b := &built{hole: hole, p: p, plain: plain, probes: probes, basket: &tok.Basket{}, log: &tok.Log{},
		ints: map[int]*tok.IntReader{}, uints: map[int]*tok.UintReader{}, bools: map[int]*tok.BoolReader{}, whats: map[int]string{}, maxCalls: 400000}
	b.nodes = make([]tok.Reader, len(p.nodes))
	for i := range p.rules {
		b.rules = append(b.rules, &tok.Rule{Name: fmt.Sprintf("rule%d", i)})
	}
	for i, r := range p.rules {
		b.rules[i].Reader = b.make(r)
	}
	b.start = b.make(p.start)
	return b
}

func (b *built) what(e *Expr) string {
	w, ok := b.whats[e.id]
	if !ok {
		w = b.nodes[e.id].What()
		b.whats[e.id] = w
	}
	return w
}

func (b *built) resetObs() {
	b.events, b.calls, b.open, b.level = nil, nil, nil, 0
}

// arg hands a child over: as plain rune or string where that is allowed.
func (b *built) arg(parent, e *Expr) interface{} {
	r := b.make(e)
	if parent.bare && !b.probes && !e.hole {
		switch e.k {
		case kLit:
			return e.s
		case kRune:
			return e.rs[0]
		}
	}
	return r
}

func (b *built) args(parent *Expr, l []*Expr) []interface{} {
	res := []interface{}{}
	for _, e := range l {
		res = append(res, b.arg(parent, e))
	}
	return res
}

func rangeStr(rs []rune) string {
	s := ""
	for i := 0; i+1 < len(rs); i += 2 {
		s += string(rs[i]) + "-" + string(rs[i+1])
	}
	return s
}

func (b *built) make(e *Expr) tok.Reader {
	r := b.make1(e)
	if b.probes {
		r = &probe{e, r, b}
	}
	b.nodes[e.id] = r
	return r
}

func (b *built) make1(e *Expr) tok.Reader {
	switch e.k {
	case kLit:
		if e.hole {
			return b.hole
		}
		return tok.Lit(e.s)
	case kRune:
		return tok.Rune(e.rs[0])
	case kFold:
		return tok.Fold(e.s)
	case kAnyRune:
		return tok.AnyRune(e.s)
	case kBetween:
		return tok.Between(e.rs[0], e.rs[1])
	case kBetweenAny:
		return tok.BetweenAny(rangeStr(e.rs))
	case kSet:
		return tok.Set(rangeStr(e.rs), e.s)
	case kBuild:
		rs := append([]rune{}, e.rs...)
		r := tok.BuildBetweenAny(rs...)
		for i := range rs { // the list belongs to the caller
			rs[i] = 'q'
		}
		return r
	case kHoley:
		return tok.Holey(e.rs[0], e.rs[1], e.s)
	case kDigit:
		return tok.Digit()
	case kHexDigit:
		return tok.HexDigit()
	case kWS:
		return tok.WS()
	case kNL:
		return tok.NL()
	case kMatch:
		return tok.Match(e.s, e.f)
	case kAtEnd:
		return tok.AtEnd()
	case kRuleName:
		return tok.RuleName()
	case kBool:
		r := tok.Bool(e.s)
		b.bools[e.id] = r
		return r
	case kInt:
		r := tok.Int(e.n, e.m)
		b.ints[e.id] = r
		return r
	case kUint:
		r := tok.Uint(e.n, e.m)
		b.uints[e.id] = r
		return r
	case kWrap:
		n, fail := e.n, e.m == 1
		return tok.Wrap(e.s, func(s *tok.Scanner) error {
			for i := 0; i < n; i++ {
				s.MoveRunes(1)
			}
			return s.ErrorIfFalse(!fail, "wrapped")
		})
	case kInvalid:
		return tok.InvalidReader("inv")
	case kAny:
		l := b.args(e, e.subs)
		r := tok.Any(l...)
		scribble(l)
		return r
	case kAnyFold:
		l := append([]string{}, e.strs...)
		r := tok.AnyFold(l...)
		for i := range l {
			l[i] = "scribbled"
		}
		return r
	case kSeq:
		l := b.args(e, e.subs)
		r := tok.Seq(l...)
		scribble(l)
		return r
	case kSkipSeq:
		l := b.args(e, e.subs[1:])
		r := tok.SkipSeq(b.make(e.subs[0]), l...)
		scribble(l)
		return r
	case kSkipWSSeq:
		l := b.args(e, e.subs)
		r := tok.SkipWSSeq(l...)
		scribble(l)
		return r
	case kMany:
		return tok.Many(b.arg(e, e.subs[0]))
	case kZom:
		return tok.Zom(b.arg(e, e.subs[0]))
	case kOpt:
		return tok.Opt(b.arg(e, e.subs[0]))
	case kTimes:
		return tok.Times(e.n, b.make(e.subs[0]))
	case kAt:
		return tok.At(b.make(e.subs[0]))
	case kNot:
		return tok.Not(b.make(e.subs[0]))
	case kTo:
		return tok.To(b.arg(e, e.subs[0]))
	case kPast:
		return tok.Past(b.arg(e, e.subs[0]))
	case kBody:
		return tok.Body(b.make(e.subs[0]), b.make(e.subs[1]))
	case kBodyTail:
		return tok.BodyTail(b.make(e.subs[0]), b.make(e.subs[1]))
	case kNamed:
		return tok.Named(e.s, b.make(e.subs[0]))
	case kMap:
		sub := b.make(e.subs[0])
		if b.plain {
			return sub
		}
		id := e.id
		return tok.Map(sub, func(t tok.Token) { b.events = append(b.events, mapEvent{id, t}) })
	case kPick:
		sub := b.make(e.subs[0])
		if b.plain {
			return sub
		}
		return tok.Pick(sub, b.basket, pickName(e))
	case kMonitor:
		sub := b.make(e.subs[0])
		if b.plain {
			return sub
		}
		return tok.Monitor(sub, b.log, monName(e))
	case kRef:
		return b.rules[e.n]
	}
	panic("unknown kind")
}
