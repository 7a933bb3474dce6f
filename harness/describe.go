package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ------------------------------------------------------------------------- C24
// The description of a reader is judged by what it has to show, not by its form:
// the parts in order, the literals quoted, the numbers, the names as they are.

// inOrder: all parts in w, one behind the other.
func inOrder(w string, parts []string) (string, bool) {
	for _, p := range parts {
		i := strings.Index(w, p)
		if i < 0 {
			return p, false
		}
		w = w[i+len(p):]
	}
	return "", true
}

func quoted(s string) string { return strconv.QuoteToGraphic(s) }

// bound: a rune as it is shown within quotes, without the quotes
func bound(r rune) string {
	q := strconv.QuoteRuneToGraphic(r)
	return q[1 : len(q)-1]
}

func judgeDescription(t *T, b *built, e *Expr) {
	w := b.nodes[e.id].What()
	sub := []string{}
	for _, s := range e.subs {
		sub = append(sub, b.nodes[s.id].What())
	}
	exact := ""
	isExact := false
	parts := sub
	switch e.k {
	case kLit, kFold, kAnyRune, kBool:
		parts = []string{quoted(e.s)}
	case kRune:
		parts = []string{bound(e.rs[0])}
	case kBetween:
		parts = []string{bound(e.rs[0])}
		if e.rs[0] != e.rs[1] {
			parts = append(parts, bound(e.rs[1]))
		}
	case kBuild, kBetweenAny, kSet:
		parts = nil
		for i := 0; i+1 < len(e.rs); i += 2 {
			if e.k == kBuild || e.rs[i] < e.rs[i+1] {
				parts = append(parts, bound(e.rs[i]), bound(e.rs[i+1]))
			}
		}
		if e.k == kSet {
			if !strings.Contains(w, quoted(e.s)) && e.s != "" {
				t.Failf("%s is described as %q, the set %q is not shown", e, w, e.s)
			}
			for _, r := range e.s {
				if _, ok := inOrder(w, []string{strings.Trim(quoted(string(r)), "\"")}); !ok {
					t.Failf("%s is described as %q, the rune %q is not shown", e, w, r)
				}
			}
		}
	case kHoley:
		parts = []string{bound(e.rs[0]), quoted(e.s)}
	case kInt, kUint:
		parts = []string{fmt.Sprint(e.n), fmt.Sprint(e.m)}
	case kDigit:
		parts = []string{"0", "9"}
	case kHexDigit:
		parts = nil
		for _, x := range []string{"0", "9", "a", "f", "A", "F"} {
			if !strings.Contains(w, x) {
				t.Failf("a hex digit is described as %q", w)
			}
		}
	case kMatch:
		isExact, exact = true, e.s
	case kWrap:
		isExact, exact = true, e.s
	case kNamed:
		isExact, exact = true, e.s
	case kRef:
		isExact, exact = true, b.rules[e.n].Name
	case kMap, kPick, kMonitor:
		isExact, exact = true, sub[0]
	case kTimes:
		parts = append([]string{fmt.Sprint(e.n)}, sub...)
	case kAnyFold:
		parts = nil
		for _, s := range e.strs {
			parts = append(parts, quoted(s))
		}
	case kInvalid:
		parts = []string{tok.InvalidReaderMarker, "inv"}
	case kWS, kNL, kAtEnd, kRuleName:
		parts = nil
		if w == "" {
			t.Failf("%s has no description", e)
		}
	}
	if isExact {
		if w != exact {
			t.Failf("%s is described as %q, expected %q", e, w, exact)
		}
	} else if miss, ok := inOrder(w, parts); !ok {
		t.Failf("%s is described as %q, which does not show %q where it belongs", e, w, miss)
	}
	t.Obs("described " + kindNames[e.k])
}

func runC24(t *T) {
	c := &genCfg{values: true, invalid: t.P(1, 10), observers: true}
	p := t.drawProg(c)
	b := p.build(false, false)
	whats := []string{}
	for _, n := range p.nodes {
		judgeDescription(t, b, n)
		whats = append(whats, b.nodes[n.id].What())
	}
	lines := tok.GrammarLines(b.rules)
	for i, r := range b.rules {
		if miss, ok := inOrder(r.Rule(), []string{r.Name, r.Reader.What()}); !ok || len(r.Rule()) > len(r.Name)+len(r.Reader.What())+8 {
			t.Failf("the rule %s is shown as %q without %q", r.Name, r.Rule(), miss)
		}
		if i >= len(lines) || lines[i] != r.Rule() {
			t.Failf("the lines %q of the grammar do not show the rule %q", lines, r.Rule())
		}
	}
	// what is read with it does not matter
	for i := t.In(1, 3); i > 0; i-- {
		text, pos := t.progText(p, c, t.size())
		m, _, _ := t.refRun(p, b, text, pos)
		if m.skip {
			continue
		}
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(pos))
		s.Use(b.start)
		for j, n := range p.nodes {
			if w := b.nodes[n.id].What(); w != whats[j] {
				t.Failf("%s was described as %q and is described as %q after a read of %q", n, whats[j], w, text)
			}
		}
		t.Obs("described after a read")
	}
	if len(p.nodes) > 3 {
		t.Distinct(p.String())
		t.Sample("%s: %s", clip(p.start.String(), 160), clip(b.start.What(), 160))
	}
}

// runC24Kinds: readers of another kind or of other values have another description.
func runC24Kinds(t *T) {
	str := t.Text(3)
	if str == "" {
		str = "a"
	}
	r := []rune(str)[0]
	n := t.In(0, 12)
	sub := func() tok.Reader { return tok.Fold(str) }
	list := map[string]tok.Reader{
		"sub": sub(), "Lit": tok.Lit(str), "Rune": tok.Rune(r), "AnyRune": tok.AnyRune(str),
		"Many": tok.Many(sub()), "Zom": tok.Zom(sub()), "Opt": tok.Opt(sub()), "At": tok.At(sub()), "Not": tok.Not(sub()), "To": tok.To(sub()), "Past": tok.Past(sub()),
		"Times": tok.Times(n, sub()), "Times+1": tok.Times(n+1, sub()), "Any": tok.Any(sub()), "Any2": tok.Any(sub(), sub()), "Seq2": tok.Seq(sub(), sub()),
		"SkipSeq": tok.SkipSeq(sub(), sub()), "SkipWSSeq": tok.SkipWSSeq(sub()), "Body": tok.Body(sub(), sub()), "BodyTail": tok.BodyTail(sub(), sub()),
		"Holey": tok.Holey(0, r, str), "Between": tok.Between(0, r), "AtEnd": tok.AtEnd(), "Bool": tok.Bool(str),
		"Int8": tok.Int(n, 8), "Int16": tok.Int(n, 16), "Int+1": tok.Int(n+1, 8), "Uint8": tok.Uint(n, 8), "Uint16": tok.Uint(n, 16), "Uint+1": tok.Uint(n+1, 8),
		"NL": tok.NL(), "WS": tok.WS(), "Digit": tok.Digit(), "HexDigit": tok.HexDigit(), "RuleName": tok.RuleName(),
	}
	nx, ny := "x"+t.janusName(), "y"+t.janusName()
	jb, je := tok.Janus(nx, sub())
	kb, ke := tok.Janus(ny, sub())
	list["Janus begin"], list["Janus end"], list["Janus begin y"], list["Janus end y"] = jb, je, kb, ke
	seen := map[string]string{}
	for _, k := range sortedReaders(list) {
		w := list[k].What()
		if o, ok := seen[w]; ok && !sameReader(k, o, str) {
			t.Failf("%s and %s of %q are both described as %q", o, k, str, w)
		}
		seen[w] = k
	}
	if miss, ok := inOrder(jb.What(), []string{nx, quoted(str)}); !ok {
		t.Failf("the begin of a pair is described as %q without %q", jb.What(), miss)
	}
	if !strings.Contains(je.What(), nx) {
		t.Failf("the end of the pair %q is described as %q", nx, je.What())
	}
	bw, ew := jb.What(), je.What()
	s := tok.NewScanner(str + str)
	if s.Use(jb) == nil {
		s.Use(je)
		t.Obs("pair used")
	}
	if jb.What() != bw || je.What() != ew {
		t.Failf("the pair was described as %q %q, after a read as %q %q", bw, ew, jb.What(), je.What())
	}
	t.Obs("kinds told apart")
	t.Distinct(str, fmt.Sprint(n))
}

// runC24Long: long literals and lists are shown as a whole.
func runC24Long(t *T) {
	str := t.Text(t.Size(400))
	leaf := map[string]tok.Reader{"Lit": tok.Lit(str), "Fold": tok.Fold(str), "AnyRune": tok.AnyRune(str), "Bool": tok.Bool(str), "Holey": tok.Holey('a', 'z', str), "AnyFold": tok.AnyFold(str)}
	for _, k := range sortedReaders(leaf) {
		if w := leaf[k].What(); !strings.Contains(w, quoted(str)) {
			t.Failf("%s of %q is described as %q", k, str, w)
		}
	}
	list, parts := []interface{}{}, []string{}
	for i := t.Size(80); i > 0; i-- {
		switch t.N(4) {
		case 0:
			x := t.Text(4)
			list, parts = append(list, x), append(parts, quoted(x))
		case 1:
			r := t.Rune([]rune("a'\"\\\n\x00ä€😀\u200b"))
			list, parts = append(list, r), append(parts, bound(r))
		case 2:
			w := tok.Many(tok.Times(i, tok.Rune('x')))
			list, parts = append(list, w), append(parts, w.What())
		default:
			n := t.Text(6)
			list, parts = append(list, tok.Named(n, tok.AtEnd())), append(parts, n)
		}
	}
	comp := map[string]tok.Reader{"Any": tok.Any(list...), "Seq": tok.Seq(list...), "SkipSeq": tok.SkipSeq(tok.NL(), list...), "SkipWSSeq": tok.SkipWSSeq(list...)}
	for _, k := range sortedReaders(comp) {
		w := comp[k].What()
		if miss, ok := inOrder(w, parts); !ok {
			t.Failf("%s of %d parts is described as %q, which does not show %q where it belongs", k, len(list), w, miss)
		}
		deep := comp[k]
		for i := t.Size(40); i > 0; i-- {
			in := deep.What()
			switch t.N(8) {
			case 0:
				deep = tok.Many(deep)
			case 1:
				deep = tok.Zom(deep)
			case 2:
				deep = tok.Opt(deep)
			case 3:
				deep = tok.At(deep)
			case 4:
				deep = tok.Not(deep)
			case 5:
				deep = tok.To(deep)
			case 6:
				deep = tok.Past(deep)
			default:
				deep = tok.Times(t.N(1000), deep)
			}
			if !strings.Contains(deep.What(), in) || deep.What() == in {
				t.Failf("%q within another reader is described as %q", in, deep.What())
			}
		}
		tok.NewScanner(str).Use(comp[k])
		if comp[k].What() != w {
			t.Failf("%q is described as %q after a read", w, comp[k].What())
		}
	}
	if len(list) > 30 {
		t.Obs("long list described")
	}
	if len(str) > 100 {
		t.Obs("long literal described")
	}
	t.Distinct(str, fmt.Sprint(parts))
}

// runC24Rules: lists of rules with names of any kind, equal ones among them.
func runC24Rules(t *T) {
	pool := []string{"a", "A", "b", "rule", "", "a:", ": ", t.oddName(), t.Text(6), "r" + oddEnd(t.N(40))}
	rules := []*tok.Rule{}
	subs := []tok.Reader{tok.Lit("x"), tok.Zom(tok.Digit()), tok.Named("n", tok.AtEnd()), tok.Seq('a', "b"), tok.Many(tok.NL())}
	for i := t.few(4, 200); i > 0; i-- {
		r := &tok.Rule{Name: t.Str(pool), Reader: subs[t.N(len(subs))]}
		if len(rules) > 0 && t.P(1, 8) {
			r = rules[t.N(len(rules))] // the same rule again
		} else if len(rules) > 0 && t.P(1, 4) {
			r.Reader = rules[t.N(len(rules))]
		}
		rules = append(rules, r)
	}
	lines := tok.GrammarLines(rules)
	if len(lines) != len(rules) {
		t.Failf("%d lines for %d rules: %q", len(lines), len(rules), lines)
	}
	for i, r := range rules {
		if miss, ok := inOrder(lines[i], []string{r.Name, r.Reader.What()}); !ok || !strings.HasPrefix(lines[i], r.Name) || !strings.HasSuffix(lines[i], r.Reader.What()) {
			t.Failf("the rule %q of %q is shown as %q without %q", r.Name, r.Reader.What(), lines[i], miss)
		}
		if r.What() != r.Name || lines[i] != r.Rule() {
			t.Failf("the rule %q is described as %q and shown as %q, its line is %q", r.Name, r.What(), r.Rule(), lines[i])
		}
	}
	t.Obs("list of rules described")
	t.Distinct(strings.Join(lines, "\n"))
}

// readers that are the same by their arguments
func sameReader(a, b, str string) bool {
	if a > b {
		a, b = b, a
	}
	switch a + " " + b {
	case "Between Rune": // from 0 to 0
		return str[0] == 0
	case "AnyRune WS":
		return str == " \r\n\t"
	}
	return false
}

func sortedReaders(m map[string]tok.Reader) []string {
	k := map[string]bool{}
	for n := range m {
		k[n] = true
	}
	return sortedKeys(k)
}

// runC24Grammars: the lines of the library's grammars name all their rules in order.
func runC24Grammars(t *T) {
	gs := []tok.Grammar{grammar.JSON(), grammar.MXT(), grammar.Lua()}
	names := []string{"json", "mxt", "lua"}
	g := gs[t.idx%3]
	if g.What() != names[t.idx%3] {
		t.Failf("the grammar %s is described as %q", names[t.idx%3], g.What())
	}
	lines := tok.GrammarLines(g.Grammar())
	if len(lines) != len(g.Grammar()) {
		t.Failf("%d lines for %d rules", len(lines), len(g.Grammar()))
	}
	for i, r := range g.Grammar() {
		if miss, ok := inOrder(lines[i], []string{r.Name, r.Reader.What()}); !ok || r.What() != r.Name || lines[i] != r.Rule() {
			t.Failf("the line %q for the rule %s does not show %q", lines[i], r.Name, miss)
		}
		t.Distinct(lines[i])
	}
	t.Obs("grammar described")
}

func init() {
	fl := []string{"giant case", "described after a read", "kinds told apart", "list of rules described", "pair used", "grammar described", "long list described", "long literal described"}
	for k := kind(0); k < numKinds; k++ {
		fl = append(fl, "described "+kindNames[k])
	}
	register(&Prop{ID: "C24", Rule: "descriptions of every node of generated reader programs, of all kinds of readers over the same part, of the grammars' rules; non-trivial: programs of more than 3 nodes, distinct by program, literal or line",
		Floors: fl, Assume: []string{"a description shows a literal in Go's quoted form with graphic characters"},
		Suites: []Suite{{"programs", 200000, 2500000, runC24}, {"kinds", 20000, 500000, runC24Kinds}, {"long", 6000, 200000, runC24Long}, {"lists of rules", 6000, 200000, runC24Rules}, {"grammars", 24, 24, runC24Grammars}, {"giants", 400, 15000, giant(runC24)}}})
}
