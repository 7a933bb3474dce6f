package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aiq/tok"
)

// Giants: the same judges on readers, texts, lists and histories that are much
// larger than those of the other suites, so that limits and special treatment
// of large inputs show.

// big draws a size of up to max: a logarithmic one, or near a number of the source.
func (r *Rng) big(max int) int {
	if r.P(1, 3) && len(dict.Ints) > 0 {
		for i := 0; i < 4; i++ {
			n := int(dict.Ints[r.N(len(dict.Ints))])
			if n > 16 && n < max {
				return imin(max, n+r.In(-1, imax(2, n/8)))
			}
		}
	}
	p := 4
	for 1<<uint(p+1) < max && r.P(7, 8) {
		p++
	}
	if r.P(1, 3) {
		return imin(max, 1<<uint(p)+r.In(-1, 1))
	}
	return imin(max, 1<<uint(p)+r.N(1<<uint(p)))
}

// huge is big, and now and then a size far above it.
func (r *Rng) huge(max, more int) int {
	if !r.P(1, 12) {
		return r.big(max)
	}
	if r.P(1, 2) {
		for i := 0; i < 8 && len(dict.Ints) > 0; i++ {
			n := int(dict.Ints[r.N(len(dict.Ints))])
			if n >= max && n < more {
				return imin(more, n+r.In(-1, imax(2, n/8)))
			}
		}
	}
	for n := max; ; n *= 2 {
		if n >= more/2 || r.P(1, 3) {
			return imin(more, n+r.N(n+1))
		}
	}
}

// word is a string of n or some more bytes that is different at every place
func (t *T) bigWord(n int) string {
	atoms := []string{"a", "b", "ab", "Z", "0", " ", "é", "€", "ß", "\n", "-"}
	if t.P(1, 2) {
		atoms = []string{"a", "b"}
	}
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(t.Str(atoms))
	}
	return b.String()
}

// watched puts observers around a part
func (t *T) watched(c *genCfg, e *Expr) *Expr {
	for c.observers && t.P(2, 3) {
		e = &Expr{k: []kind{kMap, kPick, kMonitor}[t.N(3)], subs: []*Expr{e}}
	}
	return e
}

// part is a small reader and a text it reads (no other giant part reads it
// in another way: it has no alternatives).
func (t *T) part(c *genCfg, i int) (*Expr, string) {
	switch t.N(7) {
	case 0:
		return &Expr{k: kDigit}, fmt.Sprint(i % 10)
	case 1:
		return &Expr{k: kRune, rs: []rune{'é'}}, "é"
	case 2:
		return &Expr{k: kFold, s: "Ab"}, t.swapCase("Ab")
	case 3:
		return &Expr{k: kBetween, rs: []rune{'a', 'm'}}, string(rune('a' + i%13))
	case 4:
		return &Expr{k: kAnyRune, s: "xyz€"}, t.Str([]string{"x", "y", "z", "€"})
	case 5:
		return &Expr{k: kSeq, subs: []*Expr{{k: kLit, s: "<"}, {k: kDigit}}}, "<" + fmt.Sprint(i%10)
	}
	s := fmt.Sprintf("k%d;", i)
	return &Expr{k: kLit, s: s}, s
}

// giantExpr gives a reader with something large and a text it reads.
func (t *T) giantExpr(c *genCfg, p *Prog) (*Expr, string) {
	switch t.N(20) {
	case 0, 1:
		w := t.bigWord(t.huge(20000, 200000))
		if t.P(1, 3) {
			return &Expr{k: kFold, s: w}, t.swapCase(w)
		}
		return &Expr{k: kLit, s: w}, w
	case 2, 3:
		e, x := t.part(c, 1)
		n := t.huge(20000, 150000)
		return &Expr{k: kTimes, n: n, subs: []*Expr{t.watched(c, e)}}, strings.Repeat(x, n)
	case 4, 5, 6:
		res := &Expr{k: kSeq, bare: t.P(1, 2)}
		sep := func() string { return "" }
		switch t.N(3) {
		case 0:
			res.k = kSkipWSSeq
			sep = func() string { return strings.Repeat(" ", t.few(2, 300)) }
		case 1:
			res.k = kSkipSeq
			res.subs = append(res.subs, t.watched(c, &Expr{k: kZom, subs: []*Expr{{k: kRune, rs: []rune{'_'}}}}))
			sep = func() string { return strings.Repeat("_", t.few(1, 40)) }
		}
		var b strings.Builder
		b.WriteString(sep())
		for i := t.huge(3000, 20000); i > 0; i-- {
			e, x := t.part(c, i)
			if t.P(1, 4) {
				e = t.watched(c, e)
			}
			res.subs = append(res.subs, e)
			b.WriteString(x)
			b.WriteString(sep())
		}
		return res, b.String()
	case 7:
		res := &Expr{k: kAny, bare: t.P(1, 2)}
		n := t.big(2000)
		for i := 0; i < n; i++ {
			var e *Expr = &Expr{k: kLit, s: fmt.Sprintf("%05d.", i)}
			if t.P(1, 3) {
				e = &Expr{k: kSeq, subs: []*Expr{{k: kLit, s: "0"}, {k: kLit, s: fmt.Sprintf("%04d", i)}, {k: kRune, rs: []rune{'.'}}}}
			}
			if t.P(1, 8) {
				e = t.watched(c, e)
			}
			res.subs = append(res.subs, e)
		}
		return res, fmt.Sprintf("%05d.", n-1-t.few(2, n-1)%n)
	case 8:
		res := &Expr{k: kAnyFold}
		n := t.big(2000)
		for i := 0; i < n; i++ {
			res.strs = append(res.strs, fmt.Sprintf("k%04dX", i))
		}
		return res, t.swapCase(fmt.Sprintf("k%04dX", n-1-t.few(2, n-1)%n))
	case 9, 10:
		e, x := t.part(c, 1)
		return &Expr{k: []kind{kMany, kZom}[t.N(2)], bare: t.P(1, 2), subs: []*Expr{t.watched(c, e)}}, strings.Repeat(x, t.huge(20000, 150000))
	case 11:
		e := &Expr{k: kLit, s: "*/"}
		return &Expr{k: []kind{kTo, kPast}[t.N(2)], bare: t.P(1, 2), subs: []*Expr{t.watched(c, e)}}, strings.Repeat(t.Str([]string{"*", "é", "a* /", "\n"}), t.huge(20000, 150000)) + "*/"
	case 12:
		n := t.huge(10000, 80000)
		return &Expr{k: []kind{kBody, kBodyTail}[t.N(2)], subs: []*Expr{
			{k: kZom, subs: []*Expr{t.watched(c, &Expr{k: kAnyRune, s: "ab€"})}}, t.watched(c, &Expr{k: kLit, s: "*/"})}}, strings.Repeat(t.Str([]string{"a", "b€"}), n) + "*/"
	case 13, 14: // large sets of runes
		n := t.big(1500)
		base := t.Rune([]rune{0x21, 0x100, 0x4e00, 0x10000})
		rs, all := []rune{}, []rune{}
		for i := 0; i < n; i++ {
			a := base + rune(i*7)
			rs = append(rs, a, a+rune(i%3))
			all = append(all, a)
		}
		e := &Expr{rs: rs, k: []kind{kBetweenAny, kBuild, kSet}[t.N(3)]}
		if e.k == kSet {
			e.s = "*+"
		}
		switch t.N(3) {
		case 0:
			e = &Expr{k: kAnyRune, s: string(all)}
		case 1:
			holes := []rune{}
			for _, a := range all {
				holes = append(holes, a+1)
			}
			e = &Expr{k: kHoley, rs: []rune{base, base + rune(7*n)}, s: string(holes)}
		}
		var b strings.Builder
		for i := t.In(1, 30); i > 0; i-- {
			b.WriteRune(all[n-1-t.few(2, n-1)%n])
		}
		return &Expr{k: kMany, subs: []*Expr{t.watched(c, e)}}, b.String()
	case 15: // deep within each other
		e, x := t.part(c, 1)
		for i := t.big(400); i > 0; i-- {
			switch t.N(7) {
			case 0:
				e = &Expr{k: kOpt, subs: []*Expr{e}}
			case 1:
				e = &Expr{k: kSeq, subs: []*Expr{e}}
			case 2:
				e = &Expr{k: kAny, subs: []*Expr{e}}
			case 3:
				e = &Expr{k: kNamed, s: "nm", subs: []*Expr{e}}
			case 4:
				e = &Expr{k: kTimes, n: 1, subs: []*Expr{e}}
			default:
				e = t.watched(c, e)
			}
		}
		return e, x
	case 16: // deep recursion
		n := t.big(12000)
		r := len(p.rules)
		p.rules = append(p.rules, nil)
		rule := &Expr{k: kAny, subs: []*Expr{
			{k: kSeq, subs: []*Expr{{k: kRune, rs: []rune{'('}}, t.watched(c, &Expr{k: kRef, n: r}), {k: kRune, rs: []rune{')'}}}},
			{k: kRune, rs: []rune{'x'}}}}
		p.rules[r] = rule
		return &Expr{k: kRef, n: r}, strings.Repeat("(", n) + "x" + strings.Repeat(")", n)
	case 17:
		n := t.big(20000)
		if c.values && t.P(1, 2) {
			return &Expr{k: []kind{kInt, kUint}[t.N(2)], n: 10, m: []int{8, 16, 32, 64}[t.N(4)]}, strings.Repeat("0", n) + t.Str([]string{"", "7", "127"})
		}
		return &Expr{k: kRuleName}, "R" + strings.Repeat(t.Str([]string{"a", "ab-", "9."}), n/2+1) + "z"
	case 18:
		return &Expr{k: []kind{kMany, kZom}[t.N(2)], subs: []*Expr{{k: kNot, subs: []*Expr{t.watched(c, &Expr{k: kLit, s: "*/"})}}}}, strings.Repeat(t.Str([]string{"a", "*é", "/"}), t.big(15000)) + t.Str([]string{"", "*/"})
	}
	n := t.big(20000)
	return &Expr{k: kWrap, s: "wrapped", n: n, m: t.few(0, 1)}, t.bigWord(n)
}

func (t *T) giantProg(c *genCfg) *Prog {
	c.alpha = t.drawAlpha()
	p := &Prog{}
	e, text := t.giantExpr(c, p)
	e = t.watched(c, e)
	switch t.N(8) {
	case 0:
		e = &Expr{k: kOpt, subs: []*Expr{e}}
	case 1:
		e = &Expr{k: kAt, subs: []*Expr{e}}
	case 2:
		e, text = &Expr{k: kSeq, subs: []*Expr{e, {k: kLit, s: "!"}}}, text+"!"
	case 3:
		e = &Expr{k: kAny, subs: []*Expr{{k: kSeq, subs: []*Expr{e, {k: kLit, s: "!!"}}}, {k: kLit, s: "\x01"}, t.again(e)}}
	case 4:
		e = &Expr{k: kSeq, subs: []*Expr{{k: kNot, subs: []*Expr{{k: kRune, rs: []rune{1}}}}, e}}
		text = "~" + text
	}
	p.start = e
	p.number()
	t.gText = text
	t.Notef("reader %s", clip(p.String(), 3000))
	t.Obs("giant reader")
	return p
}

// again is a copy of an expression
func (t *T) again(e *Expr) *Expr {
	n := *e
	n.subs = nil
	for _, s := range e.subs {
		n.subs = append(n.subs, t.again(s))
	}
	return &n
}

// giantText is the text the giant was made with, often with a small change.
func (t *T) giantText() (string, int) {
	text := t.gText
	alpha := []string{"a", "*", "é", "0", " ", ")", "\xff"}
	switch t.N(6) {
	case 0:
		text = text[:imax(0, len(text)-t.In(1, 3))]
	case 1:
		text += t.Str(alpha)
	case 2:
		text = t.mutate(text, alpha)
	case 3:
		k := imax(0, len(text)-t.In(1, 4))
		text = text[:k] + t.Str(alpha) + text[k:]
	}
	pos := 0
	if t.P(1, 4) {
		pos = t.In(1, 300)
		if t.P(1, 3) {
			pos = t.far(len(text))
		}
		text = strings.Repeat("~", pos) + text
	}
	return text, pos
}

// giant runs a case with giant readers and texts.
func giant(f func(t *T)) func(t *T) {
	return func(t *T) {
		t.giant = true
		f(t)
		t.Obs("giant case")
	}
}

// ------------------------------------------------------------- large collections

// runC10Giant: many picks, and moves back over some, most or all of them.
func runC10Giant(t *T) {
	n := t.big(60000)
	unit := t.Str([]string{"a", "é", "xy"})
	text := strings.Repeat(unit, n)
	b := &tok.Basket{}
	s := tok.NewScanner(text)
	s.Tracker = b
	var r tok.Reader = tok.Pick(tok.Lit(unit), b, "u")
	if t.P(1, 2) {
		r = tok.Zom(r)
	} else {
		r = tok.Times(n, r)
	}
	t.Notef("%d times %q", n, unit)
	if err := s.Use(r); err != nil || !s.AtEnd() {
		t.Obs("read differs from the reference (no verdict)")
		return
	}
	check := func(k int) {
		got := b.Picked()
		if len(got) != k {
			t.Failf("%d picks of %d reads at %d", len(got), k, s.Mark())
		}
		for i, g := range got {
			if g.Info != "u" || g.Token != mk(i*len(unit), (i+1)*len(unit)) {
				t.Failf("pick %d of %d is %v", i, k, g)
			}
		}
	}
	check(n)
	for i := t.In(1, 5); i > 0; i-- {
		k := t.In(0, n)
		if t.P(1, 2) {
			k = imax(0, n-t.In(0, 3))
		}
		s.ToMarker(tok.Marker(k * len(unit)))
		check(k)
		if err := s.Use(tok.Zom(tok.Pick(tok.Lit(unit), b, "u"))); err != nil || !s.AtEnd() {
			t.Obs("read differs from the reference (no verdict)")
			return
		}
		check(n)
	}
	t.ObsN("picked segments", n)
	t.Obs("giant basket")
	t.Distinct("giant", unit, fmt.Sprint(n))
}

// runC13Giant: a log of many entries, by hand, in deep and in flat order.
func runC13Giant(t *T) {
	n := t.big(60000)
	l := &tok.Log{}
	type w struct {
		level, from, to int
		err             bool
	}
	want := []w{}
	type op struct {
		e *tok.LogEntry
		i int
	}
	open := []op{}
	maxOpen := t.big(3000)
	if t.P(1, 2) {
		maxOpen = 3
	}
	pos := 0
	for len(want) < n {
		if len(open) > 0 && (len(open) >= maxOpen || t.P(1, 2)) {
			o := open[len(open)-1]
			open = open[:len(open)-1]
			want[o.i].to, want[o.i].err = pos, t.P(1, 3)
			var err error
			if want[o.i].err {
				err = tok.ReadError{Marker: tok.Marker(pos), What: "x"}
			}
			l.Exit(o.e, pos, err)
			continue
		}
		open = append(open, op{l.Enter(fmt.Sprint("e", len(want)), pos), len(want)})
		want = append(want, w{level: len(open), from: pos})
		pos += t.N(3)
	}
	for len(open) > 0 {
		o := open[len(open)-1]
		open = open[:len(open)-1]
		want[o.i].to = pos
		l.Exit(o.e, pos, nil)
	}
	if len(l.Entries) != n {
		t.Failf("%d entries after %d reads", len(l.Entries), n)
	}
	for i, e := range l.Entries {
		x := want[i]
		if e.Info != fmt.Sprint("e", i) || e.Level != x.level || e.EnterAt != x.from || e.ExitAt != x.to || (e.Error != nil) != x.err {
			t.Failf("entry %d of %d is %s level %d, %d to %d (%v), expected level %d, %d to %d (error %v)", i, n, e.Info, e.Level, e.EnterAt, e.ExitAt, e.Error, x.level, x.from, x.to, x.err)
		}
	}
	t.Obs("giant log")
	t.ObsN("log entries", n)
	t.Distinct("giant", fmt.Sprint(n, pos))
}

// runC11Giant: a graph of many nodes, judged at the end.
// scales: up to n different ranges within a range, none of them clash; a
// child is a little smaller than its parent, a small part of it, or a half.
func (t *T) scales(in iv, n int) []iv {
	res := []iv{}
	seen := map[iv]bool{}
	var split func(v iv)
	split = func(v iv) {
		if len(res) >= n || v.t-v.f < 1 || seen[v] {
			return
		}
		seen[v] = true
		res = append(res, v)
		size := v.t - v.f
		switch t.N(4) {
		case 0:
			split(iv{v.f + t.N(2), v.t - t.N(2)})
		case 1:
			k := imin(size, t.In(1, 12))
			f := v.f + t.N(size-k+1)
			split(iv{f, f + k})
			if f+k < v.t {
				split(iv{f + k, imin(v.t, f+k+t.In(1, 30))})
			}
		case 2:
			m := v.f + t.N(size+1)
			split(iv{v.f, m})
			split(iv{m, v.t})
		default:
			m := v.f + size/2
			split(iv{m, v.t})
			split(iv{v.f, m - t.N(2)})
		}
	}
	for i := 0; i < 20 && len(res) < n; i++ {
		split(in)
		in = iv{in.t + t.N(2), in.t + 1 + t.big(10000)}
	}
	return res
}

func runC11Giant(t *T) {
	n := t.big(1200)
	g := tok.NewGraph("g")
	acc := map[string]segIv{}
	l := []segIv{}
	shape := t.N(7)
	var family []iv
	if shape == 6 {
		family = t.scales(iv{0, t.big(2000000)}, imin(n, 400))
		n = len(family)
	}
	for i := 0; i < n; i++ {
		var v iv
		switch shape {
		case 0: // side by side
			v = iv{i * 3, i*3 + 2}
		case 1: // within each other
			v = iv{i, 4*n - i}
		case 2: // groups
			if i%8 == 0 {
				v = iv{i * 4, i*4 + 31}
			} else {
				v = iv{(i/8)*32 + (i%8)*3, (i/8)*32 + (i%8)*3 + 2}
			}
		case 3: // nothing within one
			v = iv{i * 2, i * 2}
			if i == 0 {
				v = iv{0, 2 * n}
			}
		case 4: // bytes and nothing by turns
			v = iv{i * 2, i*2 + i%2}
		case 6:
			v = family[i]
		default:
			v = iv{i * 2, i*2 + 2}
		}
		l = append(l, segIv{iv: v, info: fmt.Sprintf("s%d", i), no: i})
	}
	switch t.N(3) {
	case 0:
		for i := len(l) - 1; i > 0; i-- {
			j := t.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	case 1:
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	t.Notef("%d segments, shape %d, %s first", n, shape, l[0].seg())
	for _, x := range l {
		h, ok := g.Append(x.seg())
		if !ok {
			t.Failf("segment %v is refused in a graph of %d", x.seg(), len(acc))
		}
		g = h
		acc[x.info] = x
	}
	if shape == 0 || shape == 2 { // one that clashes is refused
		bad := tok.Segment{Info: "bad", Token: mk(1, n*3/2)}
		if shape == 2 {
			bad.Token = mk(1, 33)
		}
		if n > 16 {
			before := len(allNodes(g.Root))
			h, ok := g.Append(bad)
			if ok {
				t.Failf("the clashing segment %v is accepted in a graph of %d", bad, n)
			}
			if len(allNodes(h.Root)) != before {
				t.Failf("a refused segment changed the graph")
			}
			t.Obs("refused")
		}
	}
	judgeGraph(t, g, acc)
	judgeViews(t, g, acc)
	t.Obs("giant graph")
	t.ObsN("accepted", n)
	t.Distinct("giant", fmt.Sprint(n, shape, l[0].seg()))
}

// runC12Giant: long lists of segments.
func runC12Giant(t *T) {
	n := t.big(20000)
	want := []tok.Segment{}
	step := t.In(1, 3)
	shape := t.N(3)
	ivs := map[tok.Token]iv{}
	mk := func(f, z int) tok.Token {
		k := mk(f, z)
		ivs[k] = iv{f, z}
		return k
	}
	for i := 0; i < n; i++ {
		info := fmt.Sprintf("s%d", i)
		switch {
		case shape == 0:
			want = append(want, tok.Segment{Info: info, Token: mk(i*step, i*step+step)})
		case shape == 1:
			want = append(want, tok.Segment{Info: info, Token: mk(i, 3*n-i)})
		case i%4 == 0:
			want = append(want, tok.Segment{Info: info, Token: mk(i*4, i*4+16)})
		default:
			want = append(want, tok.Segment{Info: info, Token: mk((i/4)*16+(i%4)*4, (i/4)*16+(i%4)*4+4)})
		}
	}
	got := append([]tok.Segment{}, want...)
	for i := len(got) - 1; i > 0; i-- {
		j := t.N(i + 1)
		got[i], got[j] = got[j], got[i]
	}
	if t.P(1, 2) { // equal ranges stay in the order they have
		for i := range got {
			if t.P(1, 3) {
				got[i].Token = got[t.N(len(got))].Token
			}
		}
		for i := range got {
			got[i].Info = fmt.Sprintf("s%d", i)
		}
		want = append([]tok.Segment{}, got...)
		sort.SliceStable(want, func(i, j int) bool {
			a, b := ivs[want[i].Token], ivs[want[j].Token]
			return a.f < b.f || a.f == b.f && a.t > b.t
		})
	}
	t.Notef("%d segments, shape %d", n, shape)
	if t.P(1, 2) {
		tok.SortSegments(got)
		t.Obs("sorted")
	} else {
		order := []string{}
		for i := t.big(100); i > 0; i-- {
			order = append(order, fmt.Sprintf("x%d", t.N(n)))
		}
		tok.SortSegmentsByOrder(got, order)
		t.Obs("sorted by order")
	}
	for i := range want {
		if got[i] != want[i] {
			t.Failf("segment %d of %d is %v after sorting, expected %v", i, n, got[i], want[i])
		}
	}
	// equal ranges by the order
	eq, order := []tok.Segment{}, []string{}
	m := t.big(800)
	for i := 0; i < m; i++ {
		order = append(order, fmt.Sprintf("o%d", i))
		eq = append(eq, tok.Segment{Info: order[i], Token: mk(3, 9)})
	}
	for i := len(eq) - 1; i > 0; i-- {
		j := t.N(i + 1)
		eq[i], eq[j] = eq[j], eq[i]
	}
	tok.SortSegmentsByOrder(eq, order)
	for i := range eq {
		if eq[i].Info != order[i] {
			t.Failf("segment %d of %d with the same range is %v, expected %s", i, m, eq[i], order[i])
		}
	}
	t.Obs("equal ranges")
	// gaps
	parts, all := []tok.Segment{}, []tok.Segment{}
	cur := 0
	for i := 0; i < n; i++ {
		if t.P(1, 2) {
			all = append(all, tok.Segment{Token: mk(cur, cur+2)})
			cur += 2
		}
		p := tok.Segment{Info: fmt.Sprint("p", i), Token: mk(cur, cur+1)}
		parts, all = append(parts, p), append(all, p)
		cur++
	}
	res, err := tok.NewScanner(strings.Repeat("x", cur)).Segmentate(parts)
	if err != nil {
		t.Failf("%d parts are refused: %v", n, err)
	}
	if len(res) != len(all) {
		t.Failf("%d parts give %d segments, expected %d", n, len(res), len(all))
	}
	for i := range all {
		if res[i] != all[i] {
			t.Failf("segment %d of %d is %v, expected %v", i, len(all), res[i], all[i])
		}
	}
	t.Obs("gaps filled")
	t.Obs("giant list")
	t.Distinct("giant", fmt.Sprint(n, shape, step, m))
}

// ---------------------------------------------------------------------- grammars

// runC15Giant: JSON texts with one giant element.
func runC15Giant(t *T) {
	n := t.huge(20000, 300000)
	ws := func(n int) string {
		if t.P(1, 2) {
			return strings.Repeat(t.Str([]string{" ", "\n", "\t", "\r\n"}), n)
		}
		var b strings.Builder
		for ; n > 0; n-- {
			b.WriteByte(" \t\r\n"[t.N(4)])
		}
		return b.String()
	}
	text := ""
	switch t.N(8) {
	case 0: // white space at each place there can be one
		tpl := t.Str([]string{"|[|1|,|2|]|", "|{|\"a\"|:|1|,|\"b\"|:|{|}|}|", "|[|]|", "|\"x\"|", "|[|[|1|]|,|null|]|", "|-1.5e3|"})
		l := strings.Split(tpl, "|")
		k := t.N(len(l))
		for i, x := range l {
			text += x
			if i == k {
				text += ws(n)
			} else if i+1 < len(l) {
				text += ws(t.few(1, 8))
			}
		}
	case 1: // strings and keys
		var b strings.Builder
		simple := t.P(1, 2)
		for b.Len() < n {
			if simple {
				b.WriteString("a")
			} else {
				b.WriteString(t.Str([]string{"a", "é", "€", " ", `\n`, `\"`, `\\`, `\u00e9`, "/", "😀", ":", "{"}))
			}
		}
		text = t.Str([]string{`"|"`, `["|"]`, `{"|":1}`, `{"a":"|"}`, `{"|":"|"}`})
		text = strings.Replace(text, "|", b.String(), -1)
	case 2: // numbers
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte("0123456789"[t.N(10)])
		}
		text = strings.Replace(t.Str([]string{"1|", "-9|", "0.|", "1e|", "1E-|", "[3|,1.|e+|]"}), "|", b.String(), -1)
	case 3, 4: // long lists
		var b strings.Builder
		n = t.huge(6000, 150000)
		e := t.Str([]string{"1", "\"a\"", "[]", "{}", "null", "true", "-0.5", " 7 ", "[1]"})
		b.WriteString("[")
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(t.Str([]string{",", ",", " , "}))
			}
			b.WriteString(e)
		}
		b.WriteString("]")
		text = b.String()
	case 5:
		var b strings.Builder
		n = t.huge(5000, 40000)
		b.WriteString("{")
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, `"k%d":%s`, i, t.Str([]string{"1", "\"a\"", "[]", "{}", " null"}))
		}
		b.WriteString("}")
		text = b.String()
	case 6: // deep
		n = t.huge(2500, 9000)
		text = strings.Repeat("[", n) + t.Str([]string{"", "1"}) + strings.Repeat("]", n)
	default: // escapes only
		text = `["` + strings.Repeat(t.Str([]string{`\n`, `\u12aF`, `\\`, `\"`, `\/`}), n/2) + `"]`
	}
	if t.P(1, 5) {
		k := t.In(0, len(text))
		text = text[:k] + t.Str([]string{"", "x", `"`, "]", ",", "\\"}) + text[imin(len(text), k+t.N(2)):]
	}
	judgeJSON(t, text, t.P(3, 4))
	t.Obs("giant text")
}

// runC16Giant: MXT documents with one giant part.
func runC16Giant(t *T) {
	var b strings.Builder
	chunks := []mxtChunk{}
	dim := t.N(7)
	n := t.huge(3000, 100000)
	if dim == 3 { // (takes quadratic time)
		n = t.huge(500, 1700)
	}
	many := t.In(1, 3)
	if dim == 0 {
		many = t.huge(400, 3000)
	}
	giantAt := t.N(many)
	salt := ""
	word := func(n int) string {
		var w strings.Builder
		for w.Len() < n {
			w.WriteString(t.Str([]string{"a", "B", "7", "é", "/", "x"}))
		}
		return w.String()
	}
	for i := 0; i < many; i++ {
		size := func(d int) int {
			if d == dim && i == giantAt {
				return n
			}
			return t.In(1, 3)
		}
		c := mxtChunk{comment: " ", arrow: "-->"}
		b.WriteString("//" + salt + strings.Repeat(" ", size(1)))
		c.nameAt = b.Len()
		c.name = word(size(2))
		if d := size(3); d > 3 {
			c.comment = " " + strings.TrimRight(strings.Repeat(t.Str([]string{"c", "a word ", "- -> ", "é\t"}), d), " ") + " "
		}
		if d := size(4); d > 3 {
			c.arrow = strings.Repeat("-", d) + c.arrow
			if t.P(1, 2) {
				c.arrow = strings.Repeat("=", d) + "-->"
			}
		}
		b.WriteString(c.name + c.comment + c.arrow)
		salt = ""
		if d := size(5); d > 3 || t.P(1, 2) {
			salt = word(d)
			c.salt, c.saltGiven = salt, true
			b.WriteString(" " + salt)
		}
		b.WriteString("\n")
		if d := size(6); d > 3 {
			fill := t.Str([]string{"a", "a\n", "\n", "é ", "/\n", "x//\n", "-->\n"})
			c.content = strings.TrimRight(strings.Repeat(fill, d), "\n") + "."
			if t.P(1, 4) && salt != "" {
				c.content = strings.Repeat("// no chunk -->\n", d/16+1) + "."
			}
		} else {
			c.content = t.Str([]string{"", "text", "two\nlines", "a\n\nb"})
		}
		b.WriteString(c.content)
		if i+1 < many {
			b.WriteString("\n")
		}
		chunks = append(chunks, c)
	}
	text := b.String()
	if t.P(1, 4) && len(text) < 3000 {
		judgeMXTText(t, strings.ToValidUTF8(t.mutate(text, mxtAtoms), "?"))
	} else {
		judgeMXTDoc(t, newMXTSink(), text, chunks)
	}
	t.Obs("giant text")
}

// runC17Giant: Lua programs with one giant part.
func runC17Giant(t *T) {
	n := t.huge(4000, 70000)
	if t.P(1, 2) { // a generated program with a giant token or giant white space
		t.giant = true
		g := &luaGen{t: t, fuel: t.In(5, 40)}
		switch t.N(5) {
		case 0:
			g.span("localatt", func() {
				g.kw("local")
				g.put(lkName, "v"+strings.Repeat(t.Str([]string{"a", "_", "b9"}), n))
			})
		case 1:
			g.put(lkName, "f")
			g.sym("=")
			g.put(lkString, t.Str([]string{`"|"`, `'|'`, "[[|]]", "[==[|]==]"}))
			g.toks[len(g.toks)-1].s = strings.Replace(g.toks[len(g.toks)-1].s, "|", strings.Repeat(t.Str([]string{"a", "é ", `\n`, "--"}), n), 1)
		case 2:
			g.put(lkName, "f")
			g.sym("=")
			g.put(lkNumber, t.Str([]string{"1", "0x", "1e", "0."})+strings.Repeat(t.Str([]string{"0", "12", "7"}), n))
		case 3:
			g.put(lkName, "f")
			g.sym("=")
			lvl := strings.Repeat("=", n)
			g.put(lkString, "["+lvl+"[ ]"+lvl+"x ]"+lvl[1:]+"] ]"+lvl+"]")
		default:
			g.block(2, 3)
		}
		judgeLua(t, t.luaRender(g))
		t.Obs("giant text")
		return
	}
	n = t.huge(400, 3000)
	rep := func(a, x, z string) string { return a + strings.Repeat(x, n) + z }
	text := ""
	switch t.N(14) {
	case 0:
		text = rep("x = 1", t.Str([]string{" + 1", " .. a", " and b", " , 2", "^2", "== nil"}), "")
	case 1:
		text = rep("x = {", t.Str([]string{"1,", "a=1;", "[1]=2,", "{},", "'s',"}), "}")
	case 2:
		text = rep("f(1", ",1", ")")
	case 3:
		text = rep("", t.Str([]string{"x = 1 ", "f() ", ";", "local y ", "do end ", "::l:: ", "goto l ", "a.b = c\n"}), t.Str([]string{"", "return", "return 1;"}))
	case 4:
		text = rep("a", t.Str([]string{".b", "[1]", ":m()", "()", "{}", "'s'"}), t.Str([]string{"()", ".c = 1"}))
	case 5:
		text = rep("x = ", t.Str([]string{"- ", "not ", "#", "~"}), "1")
	case 6:
		n = t.big(12)
		if n > 40 {
			n = 40
		}
		text = rep("", t.Str([]string{"do ", "while x do ", "if x then ", "for i = 1, 2 do "}), "") + strings.Repeat("end ", n)
	case 7:
		text = rep("function f(a", ", b", ") end")
	case 8:
		text = rep("local a", ", b", "") + t.Str([]string{"", " = 1", " = f()"})
	case 9:
		text = rep("if a then b() ", "elseif c then d() ", "else e() end")
	case 10:
		text = rep("x = 1 ", t.Str([]string{"-- c\n", "--[[ c ]]", "\n", " \t", "--[=[ ]] ]=]"}), "y = 2")
	case 11:
		text = rep("return 1", ", 2", t.Str([]string{"", ";", " "}))
	case 12:
		text = rep("for a", ", b", " in c do end")
	default:
		text = rep("function a", ".b", t.Str([]string{"() end", ":m() end"}))
	}
	if t.P(1, 3) {
		text = t.mutate(text, []string{"x", " ", "end", ",", "(", ")", "=", "1"})
	}
	judgeLuaText(t, text)
	t.Obs("giant text")
}
