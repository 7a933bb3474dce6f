package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ------------------------------------------------------------- C06: grammars

// runBounded reads with a limit of scanner moves.
func runBounded(t *T, r tok.Reader, text string, max int, what string) (moves int) {
	tr := &stepTracker{max: max}
	s := tok.NewScanner(text)
	s.Tracker = tr
	defer func() {
		moves = tr.n
		if x := recover(); x != nil {
			if _, ok := x.(tooMany); ok {
				t.Failf("%s: more than %d scanner moves on a text of %d bytes: %q", what, max, len(text), clip(text, 300))
			}
			panic(x)
		}
	}()
	s.Use(r)
	return tr.n
}

func jsonBound(n int) int { return 400*(n+1) + 2000 }
func mxtBound(n int) int  { return 12*(n+3)*(n+3) + 2000 }

func runC06JSON(t *T) {
	text := ""
	switch t.N(5) {
	case 0:
		n := t.In(1, 3000)
		text = t.Str([]string{`"`, `{"`, `["a`, `{"a":"`}) + strings.Repeat(t.Str([]string{"a", `\n`, "é", " ", "\xff", `\u0041`, "{", "[", ":"}), n)
	case 1:
		n := t.In(1, 2000)
		text = strings.Repeat(t.Str([]string{"[", `{"a":`, " ", "[[", "[1,", "-", "1", "[ ", `{"":[`, "0"}), n)
	case 2:
		text = t.jsonMutate(t.jsonText(t.Size(40) + 2))
	case 3:
		for i := t.Size(40); i > 0; i-- {
			text += t.Str(jsonAtoms)
		}
	default:
		full := t.jsonText(t.In(2, 30))
		// cut at every byte
		for i := 0; i <= len(full) && i < 300; i++ {
			runBounded(t, grammar.JSON(), full[:i], jsonBound(i), "JSON")
			t.Obs("JSON cut off")
		}
		t.Distinct(full)
		return
	}
	t.Notef("text %q", text)
	t.ObsN("moves watched", runBounded(t, grammar.JSON(), text, jsonBound(len(text)), "JSON"))
	t.Obs("JSON text")
	t.Distinct(text)
}

func runC06MXT(t *T) {
	text := ""
	switch t.N(4) {
	case 0:
		n := t.In(1, 300)
		text = t.Str([]string{"", "//", "// a", "// a -", "// a --> s\n"}) + strings.Repeat(t.Str([]string{"a", " ", "\n", "//", "-", "// a", "\n//", "--", "\r", "\n// a -->", "\n// a --> s", "ä", "\xff"}), n)
	case 1:
		text = t.mxtMutant()
	case 2:
		for i := t.Size(60); i > 0; i-- {
			text += t.Str(mxtAtoms)
		}
	default:
		full, _ := t.mxtDoc(2)
		for i := 0; i <= len(full) && i < 250; i++ {
			runBounded(t, grammar.MXT(), full[:i], mxtBound(i), "MXT")
			t.Obs("MXT cut off")
		}
		t.Distinct(full)
		return
	}
	t.Notef("text %q", text)
	t.ObsN("moves watched", runBounded(t, grammar.MXT(), text, mxtBound(len(text)), "MXT"))
	t.Obs("MXT text")
	t.Distinct(text)
}

// Lua: the watchdog (CPU time of the case) decides
func runC06Lua(t *T) {
	text := ""
	use := func(text string) {
		s := tok.NewScanner(text)
		tr := &stepTracker{max: 4000000}
		s.Tracker = tr
		if _, ok := useLua(s, grammar.Lua(), tr); !ok {
			t.Obs("skipped (too many steps)")
		}
		t.ObsN("moves watched", tr.n)
	}
	switch t.N(4) {
	case 0:
		n := t.In(1, 400)
		text = t.Str([]string{"", "x=", "x='", "x=\"", "--[[", "x=[==[", "f(", "--", "x=a", "x={", "local x", "#!"}) + strings.Repeat(t.Str([]string{"a", "\\", " ", "\n", "]]", "=", "a.", "--\n", "[=", "]=", "1", ".b", "a,", "\xff", ";", "::", "\\z"}), n)
	case 1:
		p := t.luaProgram(2, 20, 3)
		text = t.mutate(p.text, []string{"'", "\"", "[[", "]]", "--", "--[[", "(", ")", "{", "}", "end", "function", "=", ",", "\n", "\xff", "\\", "do", "if"})
	case 2:
		for i := t.Size(12); i > 0; i-- {
			text += t.Str([]string{"'", "\"", "[[", "]]", "--", "--[[", "a", "1", "x=", "f()", "end", "function", "=", ",", "\n", "\xff", "\\", "do", "if", " "})
		}
	default:
		p := t.luaProgram(2, 12, 2)
		for i := 0; i <= len(p.text) && i < 200; i++ {
			use(p.text[:i])
			t.Obs("Lua cut off")
		}
		t.Distinct(p.text)
		return
	}
	t.Notef("text %q", text)
	use(text)
	t.Obs("Lua text")
	t.Distinct(text)
}

// ------------------------------------------------------- C13: grammars and Log

func runC13Grammar(t *T) {
	for {
		g := grammar.JSON()
		b := &built{maxCalls: 1 << 20}
		info := map[int]string{}
		for i, r := range g.Grammar() {
			if t.P(1, 5) {
				continue
			}
			e := &Expr{id: i}
			r.Reader = &probe{e, r.Reader, b}
			info[i] = r.Name
		}
		log := &tok.Log{}
		monitored := []*tok.Rule{}
		for i, r := range g.Grammar() {
			if _, ok := info[i]; ok {
				monitored = append(monitored, r)
			}
		}
		whole := len(info) == len(g.Grammar())
		switch {
		case whole && t.P(1, 2):
			log = tok.MonitorGrammar(g)
			t.Obs("MonitorGrammar")
		case t.P(1, 2):
			log.Monitor(monitored...)
		default:
			for _, r := range monitored {
				r.Monitor(log)
			}
		}
		var oth *tok.Log // another log that watches some of the rules
		othInfo := map[int]string{}
		if t.P(1, 3) {
			oth = &tok.Log{}
			for i, r := range g.Grammar() {
				if _, ok := info[i]; ok && t.P(2, 3) {
					r.Monitor(oth)
					othInfo[i] = r.Name
				}
			}
			t.Obs("two logs")
		}
		done := 0
		for i := t.In(1, 3); i > 0; i-- {
			text := t.jsonText(t.In(1, 30))
			if t.P(1, 2) {
				text = t.jsonMutate(text)
			}
			t.Notef("text %q", text)
			b.resetObs()
			s := tok.NewScanner(text)
			s.Use(g)
			judgeLog(t, log, log.Entries[done:], b.calls, info, text, nil)
			if oth != nil {
				judgeLog(t, oth, oth.Entries, b.calls, othInfo, text, nil)
				oth.Reset()
			}
			if len(log.Entries)-done > 5 {
				t.Distinct(text)
			}
			if len(log.Entries)-done > 300 {
				t.Obs("long log")
			}
			if t.P(1, 8) {
				judgePreview(t, log, text[:t.Position(text)], t.In(0, 9), done)
			}
			done = len(log.Entries)
			if t.P(1, 3) {
				log.Reset()
				done = 0
				if len(log.Entries) != 0 {
					t.Failf("%d entries after Reset", len(log.Entries))
				}
				t.Obs("reset")
			}
		}
		return
	}
}

// Enter and Exit called by hand
func runC13Log(t *T) {
	log := &tok.Log{}
	type ent struct {
		info            string
		enter, exit, lv int
		err             error
	}
	want := []ent{}
	type op struct {
		i int
		e *tok.LogEntry
	}
	open := []op{}
	dropped := []op{} // open at a reset
	n := t.Size(300)
	for i := 0; i < n || len(open) > 0; i++ {
		if len(open) == 0 && len(dropped) > 0 && t.P(1, 4) {
			// what was open when the log was reset ends: it is no entry any more
			o := dropped[len(dropped)-1]
			dropped = dropped[:len(dropped)-1]
			log.Exit(o.e, t.N(1000), nil)
			t.Obs("exit of a dropped entry")
			continue
		}
		if i < n && (len(open) == 0 || t.P(11, 20)) {
			pos := t.N(1000)
			info := t.Str([]string{"a", "b", "rule", ""})
			want = append(want, ent{info: info, enter: pos, lv: len(open) + 1})
			open = append(open, op{len(want) - 1, log.Enter(info, pos)})
		} else {
			o := open[len(open)-1]
			open = open[:len(open)-1]
			pos := t.N(1000)
			var err error
			if t.P(1, 3) {
				err = errors.New(fmt.Sprint("e", i))
			}
			log.Exit(o.e, pos, err)
			want[o.i].exit, want[o.i].err = pos, err
		}
		if len(open) == 0 && t.P(1, 10) || t.P(1, 60) {
			if len(open) > 0 {
				t.Obs("reset with open entries")
			}
			dropped = append(dropped, open...)
			open = nil
			log.Reset()
			if len(log.Entries) != 0 {
				t.Failf("%d entries after Reset", len(log.Entries))
			}
			want = nil
		}
	}
	if len(want) != len(log.Entries) {
		t.Failf("%d entries, expected %d", len(log.Entries), len(want))
	}
	for i, w := range want {
		e := log.Entries[i]
		if e.Info != w.info || e.EnterAt != w.enter || e.ExitAt != w.exit || e.Level != w.lv || e.Error != w.err {
			t.Failf("entry %d of %d is %+v, expected %+v", i, len(want), e, w)
		}
	}
	if len(want) > 3 {
		t.Obs("log by hand")
		t.Distinct(fmt.Sprint(want))
	}
}

// runC13Within: a monitored reader resets the log while it reads. The log then
// holds what was entered since, with levels from the start again.
func runC13Within(t *T) {
	log := &tok.Log{}
	type ent struct {
		info            string
		enter, exit, lv int
		failed          bool
	}
	var want []*ent
	var open []*ent
	var lines []string
	left := t.In(1, 30)
	resets := 0
	var node func(depth int) tok.Reader
	node = func(depth int) tok.Reader {
		left--
		subs := []tok.Reader{}
		for depth < 6 && left > 0 && t.P(2, 3) {
			subs = append(subs, node(depth+1))
		}
		info := fmt.Sprintf("n%d", left)
		at, fail, back := -1, t.P(1, 4), t.P(1, 3)
		if t.P(1, 8) {
			at = t.N(len(subs) + 1)
		}
		return tok.Monitor(tok.Wrap(info, func(s *tok.Scanner) error {
			e := &ent{info: info, enter: int(s.Mark()), lv: len(open) + 1}
			want, open = append(want, e), append(open, e)
			for i := 0; i <= len(subs); i++ {
				if i == at {
					log.Reset()
					want, open = nil, nil
					resets++
				}
				if i < len(subs) {
					s.Use(subs[i])
				}
			}
			from := e.enter
			s.MoveRunes(1)
			if back {
				s.ToMarker(tok.Marker(from))
			}
			var err error
			e.exit = int(s.Mark())
			if fail {
				err = s.ErrorFor(info)
				e.exit = from // a wrapped reader stands where it stood
			}
			e.failed = fail
			if n := len(open); n > 0 && open[n-1] == e {
				open = open[:n-1]
			}
			return err
		}), log, info)
	}
	r := node(0)
	text := t.Text(40)
	for i := t.In(1, 3); i > 0; i-- {
		s := tok.NewScanner(text)
		s.Use(r)
		if len(open) != 0 {
			t.Failf("internal: %d entries open", len(open))
		}
	}
	for i, w := range want {
		lines = append(lines, fmt.Sprintf("%+v", *w))
		if i >= len(log.Entries) {
			break
		}
		e := log.Entries[i]
		if e.Info != w.info || e.EnterAt != w.enter || e.ExitAt != w.exit || e.Level != w.lv || (e.Error != nil) != w.failed {
			t.Failf("entry %d of %d is %+v, expected %+v", i, len(want), e, *w)
		}
	}
	if len(want) != len(log.Entries) {
		t.Failf("%d entries, expected %d: %v", len(log.Entries), len(want), lines)
	}
	if resets > 0 && len(want) > 1 {
		t.Obs("reset within a read")
		t.Distinct(text, strings.Join(lines, " "))
	}
}

// ------------------------------------------------------------------------- C18

func (b *built) values() string {
	l := []string{}
	for id, r := range b.ints {
		l = append(l, fmt.Sprint(id, "=", r.Value))
	}
	for id, r := range b.uints {
		l = append(l, fmt.Sprint(id, "=", r.Value))
	}
	for id, r := range b.bools {
		l = append(l, fmt.Sprint(id, "=", r.Value))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func readKey(text string, pos int, r tok.Reader) string {
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	err := s.Use(r)
	return fmt.Sprintf("%s at %d", errKey(err, true), s.Mark())
}

// a program that was used before against a new one
func runC18Reuse(t *T) {
	c := &genCfg{values: true, observers: t.P(1, 3)}
	p := t.drawProg(c)
	used := p.build(false, false)
	for i := t.In(2, 6); i > 0; i-- {
		text, pos := t.progText(p, c, t.size())
		m, _, _ := t.refRun(p, used, text, pos)
		if m.skip {
			t.Obs("skipped (left recursion or too long)")
			continue
		}
		t.Notef("at %d of %q", pos, text)
		fresh := p.build(false, false)
		used.basket.Update(-1)
		got := readKey(text, pos, used.start)
		want := readKey(text, pos, fresh.start)
		if got != want {
			t.Failf("a reader that was used before: %s, a new one: %s", got, want)
		}
		// values: a value reader that is not reached keeps its value
		for id := range fresh.ints {
			if m.reached(id) && used.ints[id].Value != fresh.ints[id].Value {
				t.Failf("value of %s: used before %d, new %d", p.nodes[id], used.ints[id].Value, fresh.ints[id].Value)
			}
		}
		for id := range fresh.uints {
			if m.reached(id) && used.uints[id].Value != fresh.uints[id].Value {
				t.Failf("value of %s: used before %d, new %d", p.nodes[id], used.uints[id].Value, fresh.uints[id].Value)
			}
		}
		for id := range fresh.bools {
			if m.reached(id) && used.bools[id].Value != fresh.bools[id].Value {
				t.Failf("value of %s: used before %v, new %v", p.nodes[id], used.bools[id].Value, fresh.bools[id].Value)
			}
		}
		// the same scanner used again gives the same
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(pos))
		e1 := s.Use(used.start)
		p1 := s.Mark()
		s.ToMarker(tok.Marker(pos))
		e2 := s.Use(used.start)
		if errKey(e1, true) != errKey(e2, true) || p1 != s.Mark() {
			t.Failf("read twice on the same scanner: %s at %d, then %s at %d", errKey(e1, true), p1, errKey(e2, true), s.Mark())
		}
		if used.start.What() != fresh.start.What() {
			t.Failf("description %q after use, new %q", used.start.What(), fresh.start.What())
		}
		t.Obs("reader used again")
		if m.steps > 3 {
			t.Distinct(p.String(), text, fmt.Sprint(pos))
		}
	}
}

// counted records what its part reads
type counted struct {
	sub   tok.Reader
	reads []tok.LogEntry
	toks  []tok.Token
}

func (c *counted) Read(s *tok.Scanner) error {
	from := s.Mark()
	i := len(c.reads)
	c.reads = append(c.reads, tok.LogEntry{EnterAt: int(from)})
	err := c.sub.Read(s)
	c.reads[i].ExitAt, c.reads[i].Error = int(s.Mark()), err
	if err == nil {
		c.toks = append(c.toks, tok.MakeToken(from, s.Mark()))
	}
	return err
}

func (c *counted) What() string { return c.sub.What() }

// runStacked: a rule or reader with several observers, one above the other, in
// any order; every one of them sees every read of the part.
func runStacked(t *T) {
	c := &genCfg{}
	p := t.drawProg(c)
	b := p.build(true, false)
	if len(p.rules) > 0 { // its rule can be reached again from within: tokens in order of completion
		t.Obs("stacked with recursion")
	}
	in := &counted{sub: b.start}
	rule := &tok.Rule{Name: "top", Reader: in}
	n := t.few(4, 30)
	maps := make([][]tok.Token, 0)
	baskets := []*tok.Basket{}
	logs := []*tok.Log{}
	what := ""
	for i := 0; i < n; i++ {
		k := len(maps)
		switch t.N(6) {
		case 0:
			maps = append(maps, nil)
			rule.Map(func(x tok.Token) { maps[k] = append(maps[k], x) })
			what += "rule.Map "
		case 1:
			maps = append(maps, nil)
			rule.Reader = tok.Map(rule.Reader, func(x tok.Token) { maps[k] = append(maps[k], x) })
			what += "Map "
		case 2:
			b := &tok.Basket{}
			baskets = append(baskets, b)
			if t.P(1, 2) {
				rule.Pick(b)
			} else {
				b.PickWith(rule)
			}
			what += "rule.Pick "
		case 3:
			b := &tok.Basket{}
			baskets = append(baskets, b)
			rule.Reader = tok.Pick(rule.Reader, b, "top")
			what += "Pick "
		case 4:
			l := &tok.Log{}
			logs = append(logs, l)
			if t.P(1, 2) {
				rule.Monitor(l)
			} else {
				l.Monitor(rule)
			}
			what += "rule.Monitor "
		default:
			l := &tok.Log{}
			logs = append(logs, l)
			rule.Reader = tok.Monitor(rule.Reader, l, "top")
			what += "Monitor "
		}
	}
	var outer tok.Reader = rule
	variant := t.N(4)
	if len(p.rules) > 0 { // only where the reference walked: elsewhere the rules can be left recursive
		variant = 2 + t.N(2)
	}
	switch variant {
	case 0:
		outer = tok.Zom(rule)
	case 1:
		outer = tok.Any(tok.Seq(rule, "no such text"), tok.Past(rule))
	case 2:
		outer = tok.Seq(tok.At(tok.Opt(rule)), rule)
	}
	for i := t.In(1, 3); i > 0; i-- {
		text, pos := t.progText(p, c, t.size())
		if m, _, _ := t.refRun(p, b, text, pos); m.skip || m.steps > 300 {
			continue
		}
		t.Notef("%sabove %s at %d of %q", what, p, pos, text)
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(pos))
		s.Use(outer)
		if len(in.toks) > 5000 {
			break
		}
		for k, m := range maps {
			if fmt.Sprint(m) != fmt.Sprint(in.toks) {
				t.Failf("map %d of %d reports %v, the part reads %v (%s)", k, len(maps), m, in.toks, what)
			}
			t.Obs("stacked map")
		}
		for k, b := range baskets { // not coupled: nothing is given back
			l := b.Picked()
			if len(l) != len(in.toks) {
				t.Failf("pick %d of %d holds %v, the part reads %v (%s)", k, len(baskets), b, in.toks, what)
			}
			for j := range l {
				if l[j].Token != in.toks[j] || l[j].Info != "top" {
					t.Failf("pick %d of %d holds %v, the part reads %v (%s)", k, len(baskets), b, in.toks, what)
				}
			}
			t.Obs("stacked pick")
		}
		for k, l := range logs {
			if len(l.Entries) != len(in.reads) {
				t.Failf("log %d of %d has %d entries, the part is read %d times (%s)", k, len(logs), len(l.Entries), len(in.reads), what)
			}
			for j, e := range l.Entries {
				w := in.reads[j]
				if e.EnterAt != w.EnterAt || e.ExitAt != w.ExitAt || errKey(e.Error, true) != errKey(w.Error, true) || e.Level != 1 || e.Info != "top" {
					t.Failf("log %d of %d has %+v, the part was entered at %d and left at %d with %v (%s)", k, len(logs), e, w.EnterAt, w.ExitAt, w.Error, what)
				}
			}
			t.Obs("stacked log")
		}
		if n > 1 && len(in.reads) > 1 {
			t.Distinct(what, p.String(), text, fmt.Sprint(pos))
		}
	}
}

// runReenter: while a reader reads one text (between the reads of its parts) it
// is used on another text with another scanner; both reads give what they give alone.
func runReenter(t *T) {
	c := &genCfg{values: t.P(1, 2)}
	p := t.drawProg(c)
	b := p.build(true, true)
	for i := t.In(1, 4); i > 0; i-- {
		text, pos := t.progText(p, c, t.size())
		other, opos := t.progText(p, c, t.size())
		m, end, want := t.refRun(p, b, text, pos)
		m2, end2, want2 := t.refRun(p, b, other, opos)
		if m.skip || m2.skip || m.steps > 4000 || m2.steps > 4000 {
			continue
		}
		t.Notef("%s\nat %d of %q, meanwhile at %d of %q", p, pos, text, opos, other)
		b.resetObs()
		b.hook, b.hooked = func(int) {}, 0
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(pos))
		err := s.Use(b.start)
		calls := b.hooked
		alone, at := errKey(err, true), s.Mark()
		at2 := 1
		if calls > 1 {
			at2 = t.In(1, calls)
		}
		b.resetObs()
		b.hooked = 0
		inner := ""
		var innerAt tok.Marker
		var innerErr error
		b.hook = func(n int) {
			if n != at2 {
				return
			}
			s2 := tok.NewScanner(other)
			s2.ToMarker(tok.Marker(opos))
			innerErr = s2.Use(b.start)
			inner, innerAt = errKey(innerErr, true), s2.Mark()
			b.hooked = n + 1 // what was counted within does not matter, at2 is passed
		}
		s = tok.NewScanner(text)
		s.ToMarker(tok.Marker(pos))
		err = s.Use(b.start)
		b.hook = nil
		if (err == nil) != (want == nil) || int(s.Mark()) != end || errKey(err, true) != alone || s.Mark() != at {
			t.Failf("a reader that is used on another text meanwhile: %s at %d, alone: %s at %d, expected position %d", errKey(err, true), s.Mark(), alone, at, end)
		}
		if inner == "" {
			continue
		}
		if (innerErr == nil) != (want2 == nil) || int(innerAt) != end2 {
			t.Failf("a read within another read of the same reader: %s at %d of %q, expected position %d", inner, innerAt, other, end2)
		}
		t.Obs("read within a read")
		if m.steps > 4 && m2.steps > 4 {
			t.Distinct(p.String(), text, other, fmt.Sprint(pos, opos, at2))
		}
	}
}

// runReenterJSON: the same with a grammar, from the callback of a mapped rule.
func runReenterJSON(t *T) {
	g := grammar.JSON()
	text, other := t.jsonText(t.In(1, 30)), t.jsonText(t.In(1, 30))
	if t.P(1, 4) {
		other = other[:t.In(0, len(other))]
	}
	want, want2 := readKey(text, 0, grammar.JSON()), readKey(other, 0, grammar.JSON())
	rules := g.Grammar()
	r := rules[t.N(len(rules))]
	left, inside := t.In(0, 3), false
	r.Map(func(tok.Token) {
		if inside {
			return
		}
		if left > 0 {
			left--
			return
		}
		inside = true
		got := readKey(other, 0, g)
		inside = false
		left = t.In(0, 20)
		if got != want2 {
			t.Failf("within the read of %q (rule %s): %s for %q, alone %s", text, r.Name, got, other, want2)
		}
		t.Obs("JSON read within a read")
	})
	if got := readKey(text, 0, g); got != want {
		t.Failf("%s for %q with reads of %q meanwhile (rule %s), alone %s", got, text, other, r.Name, want)
	}
	t.Distinct(text, other, r.Name)
}

func (m *model) reached(id int) bool {
	if m.ids == nil {
		m.ids = map[int]bool{}
		for k := range m.calls {
			m.ids[k.id] = true
		}
	}
	return m.ids[id]
}

// grammars that were used before, with baskets
func runC18Grammar(t *T) {
	mk := func() tok.Grammar { return grammar.JSON() }
	draw := func() string {
		s := t.jsonText(t.In(1, 20))
		if t.P(1, 2) {
			s = t.jsonMutate(s)
		}
		return s
	}
	name := "JSON"
	switch t.N(3) {
	case 0:
		name = "MXT"
		mk = func() tok.Grammar { return grammar.MXT() }
		draw = func() string {
			if t.P(1, 2) {
				return t.mxtMutant()
			}
			s, _ := t.mxtDoc(4)
			return s
		}
	case 1:
		name = "Lua"
		mk = func() tok.Grammar { return grammar.Lua() }
		draw = func() string {
			p := t.luaProgram(t.In(0, 3), t.In(2, 25), t.In(1, 3))
			if t.P(1, 2) {
				return t.mutate(p.text, []string{"'", "\"", "[[", "]=]", "--", "--[[", "[=[", "end", "=", ",", "\n", "\xff"})
			}
			return p.text
		}
	}
	used := mk()
	n := t.In(2, 4)
	for i := 0; i < n; i++ {
		text := draw()
		t.Notef("%s text %q", name, text)
		run := func(g tok.Grammar, withBasket bool) (string, string, bool) {
			s := tok.NewScanner(text)
			var b *tok.Basket
			if withBasket {
				b = s.NewBasketFor(g)
			}
			tr := &stepTracker{max: luaSteps}
			if b != nil {
				s.Tracker = stepBasket{tr, b}
			} else {
				s.Tracker = tr
			}
			err, ok := useLua(s, g, tr)
			picks := ""
			if b != nil {
				picks = b.String()
			}
			return fmt.Sprintf("%s at %d", errKey(err, true), s.Mark()), picks, ok
		}
		bk := t.P(1, 2)
		g1, p1, ok1 := run(used, bk)
		if !ok1 {
			t.Obs("skipped (too many steps)")
			return
		}
		g2, p2, _ := run(mk(), bk)
		if g1 != g2 {
			t.Failf("%s: used before: %s, new: %s", name, g1, g2)
		}
		if p1 != p2 {
			t.Failf("%s: picked %s, with a new grammar %s", name, clip(p1, 600), clip(p2, 600))
		}
		t.Obs(name + " used again")
		t.Distinct(name, text)
	}
}

// concurrent use; the race detector watches, results are compared with those of a single goroutine
func runC18Conc(t *T) {
	type job struct {
		text string
		pos  int
		r    tok.Reader
		want string
	}
	jobs := []job{}
	js := grammar.JSON()
	c := &genCfg{}
	p := t.drawProg(c)
	b := p.build(true, false)
	for i := 0; i < 12; i++ {
		switch t.N(3) {
		case 0:
			text := t.jsonText(t.In(1, 30))
			if t.P(1, 2) {
				text = t.jsonMutate(text)
			}
			jobs = append(jobs, job{text: text, r: js})
		default:
			text, pos := t.progText(p, c, 40)
			m, _, _ := t.refRun(p, b, text, pos)
			if m.skip {
				continue
			}
			jobs = append(jobs, job{text: text, pos: pos, r: b.start})
		}
	}
	if len(jobs) == 0 {
		return
	}
	// the expected results come from readers of their own
	for i := range jobs {
		r := p.build(true, false).start
		if jobs[i].r == tok.Reader(js) {
			r = grammar.JSON()
		}
		jobs[i].want = readKey(jobs[i].text, jobs[i].pos, r)
	}
	luaText := t.luaProgram(2, 12, 2).text
	mxtText, _ := t.mxtDoc(2)
	luaWant := readKey(luaText, 0, grammar.Lua())
	mxtWant := readKey(mxtText, 0, grammar.MXT())
	const G = 4
	type ev struct {
		at int64
		g  int
	}
	logs := make([][]ev, G)
	bad := make([]string, G)
	rngs := make([]*Rng, G)
	for i := range rngs {
		rngs[i] = &Rng{t.U64()}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	t0 := time.Now()
	for gi := 0; gi < G; gi++ {
		wg.Add(1)
		go func(gi int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					bad[gi] = fmt.Sprintf("panic: %v", x)
				}
			}()
			<-start
			r := rngs[gi]
			for k := 0; k < 10; k++ {
				j := jobs[r.N(len(jobs))]
				logs[gi] = append(logs[gi], ev{int64(time.Since(t0)), gi})
				if got := readKey(j.text, j.pos, j.r); got != j.want {
					bad[gi] = fmt.Sprintf("concurrent read of %q from %d: %s, alone: %s", j.text, j.pos, got, j.want)
					return
				}
				switch r.N(10) {
				case 5, 6: // readers that nobody has built before
					tt := &T{Rng: r}
					c := &genCfg{}
					q := tt.drawProg(c)
					a, z := q.build(true, false), q.build(true, false)
					for n := 0; n < 3; n++ {
						text := tt.Text(20)
						if m, _, _ := tt.refRun(q, a, text, 0); m.skip {
							continue
						}
						if x, y := readKey(text, 0, a.start), readKey(text, 0, z.start); x != y {
							bad[gi] = fmt.Sprintf("read of %q: %s, with another reader: %s", text, x, y)
						}
					}
					lit := fmt.Sprintf("%x", r.U64())
					for _, x := range []tok.Reader{tok.Lit(lit), tok.Fold(lit), tok.AnyFold(lit), tok.Any(lit), tok.Seq(lit), tok.SkipWSSeq(lit), tok.Many(lit), tok.Zom(lit), tok.Opt(lit), tok.To(lit), tok.Past(lit), tok.Named(lit, tok.Lit(lit)), tok.Times(1, tok.Lit(lit))} {
						if s := tok.NewScanner(lit); s.Use(x) != nil || x.What() == "" {
							bad[gi] = fmt.Sprintf("%s does not read %q", x.What(), lit)
						}
					}
				case 0: // grammars of their own
					if got := readKey(mxtText, 0, grammar.MXT()); got != mxtWant {
						bad[gi] = fmt.Sprintf("MXT read of %q: %s, alone: %s", mxtText, got, mxtWant)
					}
				case 1:
					if got := readKey(luaText, 0, grammar.Lua()); got != luaWant {
						bad[gi] = fmt.Sprintf("Lua read of %q: %s, alone: %s", luaText, got, luaWant)
					}
				case 2: // scanner calls on a scanner of its own
					tt := &T{Rng: r}
					s := tok.NewScanner(j.text)
					for n := 0; n < 12; n++ {
						pos := int(s.Mark())
						if r.P(1, 2) {
							o := tt.fwdOp(j.text, pos)
							o.run(s)
						} else {
							o := tt.revOp(j.text, pos)
							o.run(s)
						}
					}
				case 3:
					if tok.CheckRuleName("ab-1") != nil || tok.CheckRuleName("1") == nil {
						bad[gi] = "CheckRuleName differs"
					}
					g := &ruleGrammar{}
					tok.SetRuleNames(g)
					if len(tok.CollectRules(g)) != 3 || g.B.Name != "b" {
						bad[gi] = "SetRuleNames differs"
					}
					_ = j.r.What()
				case 4: // a basket and a log of its own around the shared reader
					bk := &tok.Basket{}
					lg := &tok.Log{}
					rd := tok.Monitor(tok.Pick(j.r, bk, "x"), lg, "m")
					s := tok.NewScanner(j.text)
					s.ToMarker(tok.Marker(j.pos))
					s.Tracker = bk
					s.Use(rd)
					if len(lg.Entries) != 1 {
						bad[gi] = fmt.Sprintf("%d log entries, expected 1", len(lg.Entries))
					}
				}
			}
		}(gi)
	}
	close(start)
	wg.Wait()
	for _, x := range bad {
		if x != "" {
			t.Failf("%s", x)
		}
	}
	all := []ev{}
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].at < all[j].at })
	h := fnv.New64()
	switches := 0
	for i, e := range all {
		h.Write([]byte{byte(e.g)})
		if i > 0 && all[i-1].g != e.g {
			switches++
		}
	}
	t.Distinct("schedule", fmt.Sprint(h.Sum64()))
	t.ObsN("concurrent reads", len(all))
	t.ObsN("goroutine switches between reads", switches)
	t.Sample("%d readers jobs, 4 goroutines, %d reads, %d switches: %s", len(jobs), len(all), switches, clip(p.String(), 100))
	if raceEnabled {
		t.Obs("concurrent case under the race detector")
	}
}

// ------------------------------------------------------------------------- C20

type customReader struct{ s string }

func (c customReader) Read(s *tok.Scanner) error { return s.ErrorIfFalse(s.If(c.s), c.s) }
func (c customReader) What() string              { return "custom " + c.s }

type notReaderType struct{}

func badArgs(t *T) interface{} {
	var np *int
	l := []interface{}{1, int64(97), uint(1), byte('a'), uint16(1), 1.5, float32(1), true, nil, np, []byte("a"), []rune("a"), []string{"a"}, errors.New("x"),
		map[string]int{}, struct{}{}, notReaderType{}, func() {}, tok.ReadFunc(func(*tok.Scanner) error { return nil }), tok.Marker(1), tok.Rule{Name: "r", Reader: tok.Lit("a")}, []tok.Reader{tok.Lit("a")},
		tok.Token{}, complex(1, 2), int8(1), strings.NewReader("a"), &[]string{"a"}, [2]rune{'a', 'b'}, fmt.Stringer(nil), func(r rune) bool { return true }, tok.MatchFunc(func(r rune) bool { return true })}
	return l[t.N(len(l))]
}

func goodArg(t *T) interface{} {
	l := []interface{}{'a', "abc", "", tok.Lit("x"), tok.AtEnd(), tok.Digit(), &tok.Rule{Name: "r", Reader: tok.Lit("q")}, tok.Opt("z"), tok.Int(10, 8), customReader{"c"}, &customReader{"d"}, grammar.JSON(), rune(0x10ffff), '\n', tok.Zom('a')}
	return l[t.N(len(l))]
}

// listCons calls a constructor that takes plain values.
func listCons(k int, args []interface{}) (tok.Reader, string) {
	switch k {
	case 0:
		return tok.Any(args...), "Any"
	case 1:
		return tok.Seq(args...), "Seq"
	case 2:
		return tok.SkipSeq(tok.Zom(' '), args...), "SkipSeq"
	case 3:
		return tok.SkipWSSeq(args...), "SkipWSSeq"
	case 4:
		return tok.Many(args[0]), "Many"
	case 5:
		return tok.Opt(args[0]), "Opt"
	case 6:
		return tok.Past(args[0]), "Past"
	case 7:
		return tok.To(args[0]), "To"
	}
	return tok.Zom(args[0]), "Zom"
}

func judgeInvalid(t *T, r tok.Reader, what string) {
	if !tok.HasInvalidReader(r.What()) || !strings.Contains(r.What(), tok.InvalidReaderMarker) {
		t.Failf("%s: the description %q does not carry the invalid marker", what, r.What())
	}
	for _, text := range []string{"", "a", "abc", "x1", "\xff", t.Text(20)} {
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(t.In(0, len(text))))
		pos := s.Mark()
		var err error
		if t.P(1, 2) {
			err = r.Read(s)
		} else {
			err = s.Use(r)
		}
		if err == nil {
			t.Failf("%s: the invalid reader reads %q", what, text)
		}
		if s.Mark() != pos {
			t.Failf("%s: the invalid reader moves to %d of %q", what, s.Mark(), text)
		}
	}
}

func judgeValidReader(t *T, r tok.Reader, what string) {
	if tok.HasInvalidReader(r.What()) {
		t.Failf("%s: the description %q of a valid reader carries the invalid marker", what, r.What())
	}
}

func runC20Args(t *T) {
	n := t.In(1, 5)
	if t.P(1, 10) {
		n = t.In(6, 30)
	}
	args := make([]interface{}, n)
	for i := range args {
		args[i] = goodArg(t)
	}
	bad := -1
	k := t.N(9)
	if t.P(2, 3) {
		bad = t.N(n)
		if k >= 4 {
			bad = 0
		}
		args[bad] = badArgs(t)
	}
	t.Notef("constructor %d, %d arguments, bad one %d: %T", k, n, bad, args[imax(bad, 0)])
	r, name := listCons(k, args)
	if bad >= 0 {
		judgeInvalid(t, r, fmt.Sprintf("%s with a %T at %d of %d", name, args[bad], bad+1, n))
		t.Obs("invalid " + name)
		t.Distinct(name, fmt.Sprintf("%T", args[bad]), fmt.Sprint(bad, n))
	} else {
		judgeValidReader(t, r, name)
		t.Obs("valid " + name)
		if k < 2 {
			t.Distinct(name, r.What())
		}
	}
}

// range lists
func runC20Ranges(t *T) {
	n := t.N(5)
	runes := []rune{}
	for i := 0; i < n; i++ {
		a, z := t.rangeRune(), t.rangeRune()
		runes = append(runes, a, '-', z)
	}
	for i := t.N(3); i > 0; i-- {
		a := t.In(0, len(runes))
		switch t.N(3) {
		case 0:
			if a < len(runes) {
				runes = append(runes[:a:a], runes[a+1:]...)
			}
		case 1:
			runes = append(runes[:a:a], append([]rune{t.rangeRune()}, runes[a:]...)...)
		default:
			if a < len(runes) {
				runes[a] = t.rangeRune()
			}
		}
	}
	str := string(runes)
	ok := len(runes)%3 == 0
	for i := 1; ok && i < len(runes); i += 3 {
		ok = runes[i] == '-'
	}
	t.Notef("ranges %q valid %v", str, ok)
	singles := t.Str([]string{"", "_", "äö", "-"})
	for i, r := range []tok.Reader{tok.BetweenAny(str), tok.Set(str, singles)} {
		name := []string{"BetweenAny", "Set"}[i]
		if ok {
			judgeValidReader(t, r, name+" "+str)
			t.Obs("valid " + name)
			// and it reads what it lists
			rs := []rune{}
			for j := 0; j+2 < len(runes); j += 3 {
				rs = append(rs, runes[j], runes[j+2])
			}
			for j := 0; j < 6; j++ {
				c := t.rangeRune()
				in := inRanges(rs, c) || i == 1 && strings.ContainsRune(singles, c)
				s := tok.NewScanner(string(c) + "x")
				if got := s.Use(r) == nil; got != in {
					t.Failf("%s of %q reads %q: %v, expected %v", name, str, c, got, in)
				}
			}
		} else {
			judgeInvalid(t, r, fmt.Sprintf("%s of %q", name, str))
			t.Obs("invalid " + name)
		}
		t.Distinct(name, str)
	}
	mm := runes
	if len(mm) > 0 && t.P(1, 2) {
		mm = mm[:len(mm)-1]
	}
	r := tok.BuildBetweenAny(mm...)
	if len(mm)%2 == 0 {
		judgeValidReader(t, r, "BuildBetweenAny")
		t.Obs("valid BuildBetweenAny")
	} else {
		judgeInvalid(t, r, fmt.Sprintf("BuildBetweenAny with %d values", len(mm)))
		t.Obs("invalid BuildBetweenAny")
	}
}

func (t *T) rangeRune() rune {
	return t.Rune([]rune("-aAzZ09bö€😀 \u07ff~"))
}

// the marker within compositions
func runC20Comp(t *T) {
	c := &genCfg{values: true, invalid: t.P(2, 3), observers: true}
	p := t.drawProg(c)
	b := p.build(false, false)
	var has func(e *Expr) bool
	has = func(e *Expr) bool {
		switch e.k {
		case kInvalid:
			return true
		case kNamed, kRef:
			return false
		}
		for _, s := range e.subs {
			if has(s) {
				return true
			}
		}
		return false
	}
	lines := tok.GrammarLines(b.rules)
	if len(lines) != len(b.rules) {
		t.Failf("%d lines for %d rules", len(lines), len(b.rules))
	}
	anyBad := false
	for i, r := range p.rules {
		want := has(r)
		anyBad = anyBad || want
		if tok.HasInvalidReader(b.rules[i].Rule()) != want || tok.HasInvalidReader(lines[i]) != want {
			t.Failf("rule %q (line %q): invalid expected %v", b.rules[i].Rule(), lines[i], want)
		}
		if !strings.HasPrefix(lines[i], b.rules[i].Name) || !strings.Contains(lines[i], b.rules[i].Reader.What()) {
			t.Failf("line %q does not describe the rule %s: %s", lines[i], b.rules[i].Name, b.rules[i].Reader.What())
		}
		t.Obs("rule described")
	}
	if tok.AnyHasInvalidReader(lines) != anyBad {
		t.Failf("AnyHasInvalidReader(%q) is %v", lines, !anyBad)
	}
	for _, n := range p.nodes {
		w := b.nodes[n.id].What()
		want := has(n)
		if tok.HasInvalidReader(w) != want {
			t.Failf("%s is described as %q: invalid expected %v", n, w, want)
		}
		if want {
			t.Obs("marker within " + kindNames[n.k])
		} else {
			t.Obs("no marker")
		}
	}
	if len(p.nodes) > 2 {
		t.Distinct(p.String())
		if has(p.start) {
			t.Sample("%s", clip(p.start.String(), 200))
		}
	}
}

// rule names
func runC20Names(t *T) {
	name := ""
	plain := t.P(1, 4)
	size := t.Size(40)
	if plain {
		size = t.tail(size, 5000)
	}
	for i := size; i > 0; i-- {
		if plain || t.P(5, 6) {
			name += string("abzAZ0189+-._"[t.N(13)])
		} else {
			name += t.atom()
		}
	}
	switch t.idx % 4 {
	case 0: // every single byte behind, in front of and within a valid name
		name = "a" + string([]byte{byte(t.idx / 4)})
	case 1:
		name = string([]byte{byte(t.idx / 4)}) + "a"
	case 2:
		name = "x" + string([]byte{byte(t.idx / 4)}) + "y"
	}
	want := name != "" && ruleNameLen(name) == len(name)
	t.Notef("name %q", name)
	if got := tok.CheckRuleName(name) == nil; got != want {
		t.Failf("CheckRuleName(%q) valid: %v, expected %v", name, got, want)
	}
	// RuleName reads the longest name
	s := tok.NewScanner(name)
	err := s.Use(tok.RuleName())
	n := ruleNameLen(name)
	if (err == nil) != (n > 0) || int(s.Mark()) != imax(n, 0) {
		t.Failf("RuleName reads %d bytes of %q (%v), expected %d", s.Mark(), name, err, n)
	}
	if want {
		t.Obs("valid name")
	} else {
		t.Obs("invalid name")
	}
	t.Distinct(name)
}

// grammars: static shapes
type base struct{}

func (base) Read(s *tok.Scanner) error { return nil }
func (base) What() string              { return "base" }

type shapeA struct {
	base
	One   tok.Rule `name:"one"`
	Count int      `name:"count"`
	Two   tok.Rule `name:"two-2"`
	Ptr   *tok.Rule
	Three tok.Rule
	Text  string   `name:"text"`
	Four  tok.Rule `name:"f.o+u_r"`
	List  []tok.Rule
	Inner struct{ X tok.Rule }
}

func (g *shapeA) Grammar() []*tok.Rule { return tok.CollectRules(g) }

type shapeB struct {
	base
	A tok.Rule `name:"a"`
	B tok.Rule `name:"1b"`
	C tok.Rule `name:"c"`
}

func (g *shapeB) Grammar() []*tok.Rule { return tok.CollectRules(g) }

type shapeC struct {
	base
	hidden tok.Rule
	A      tok.Rule `name:"A" other:"x"`
	count  int
	B      tok.Rule `other:"name"`
	Reader tok.Reader
	C      tok.Rule `name:"c c"`
}

func (g *shapeC) Grammar() []*tok.Rule { return tok.CollectRules(g) }

type shapeD struct{ base }

func (g *shapeD) Grammar() []*tok.Rule { return tok.CollectRules(g) }

type ruleLike tok.Rule

type shapeE struct {
	base
	L ruleLike `name:"like"`
	Z tok.Rule `name:"z"`
	Y tok.Rule `name:"y"`
	X tok.Rule `name:"x"`
	M map[string]tok.Rule
	F func()
	W tok.Rule `name:"w"`
	I interface{}
	V tok.Rule `name:"v!"`
}

func (g *shapeE) Grammar() []*tok.Rule { return tok.CollectRules(g) }

type shapeF struct {
	base
	x tok.Rule `name:"hidden"`
	A tok.Rule `name:"a"`
}

func (g *shapeF) Grammar() []*tok.Rule { return tok.CollectRules(g) }

type shapeG struct {
	base
	R01 tok.Rule `name:"r1"`
	R02 tok.Rule `name:"r2"`
	R03 tok.Rule `name:"r3"`
	R04 tok.Rule `name:"r4"`
	R05 tok.Rule `name:"r5"`
	R06 tok.Rule `name:"r6"`
	R07 tok.Rule `name:"r7"`
	R08 tok.Rule `name:"r8"`
	R09 tok.Rule `name:"r9"`
	R10 tok.Rule `name:"r10"`
	R11 tok.Rule `name:"r11"`
	R12 tok.Rule `name:"r12"`
}

func (g *shapeG) Grammar() []*tok.Rule { return tok.CollectRules(g) }

type shapeH struct {
	base
	R00 tok.Rule `name:"q0"`
	R01 tok.Rule `name:"q1"`
	R02 tok.Rule `name:"q2"`
	R03 tok.Rule `name:"q3"`
	R04 tok.Rule `name:"q4"`
	R05 tok.Rule `name:"q5"`
	R06 tok.Rule `name:"q6"`
	R07 tok.Rule `name:"q7"`
	R08 tok.Rule `name:"q8"`
	R09 tok.Rule `name:"q9"`
	R10 tok.Rule `name:"q10"`
	R11 tok.Rule `name:"q11"`
	R12 tok.Rule `name:"q12"`
	R13 tok.Rule `name:"q13"`
	R14 tok.Rule `name:"q14"`
	R15 tok.Rule `name:"q15"`
	R16 tok.Rule `name:"q16"`
	R17 tok.Rule `name:"q17"`
	R18 tok.Rule `name:"q18"`
	R19 tok.Rule `name:"q19"`
	R20 tok.Rule `name:"q20"`
	R21 tok.Rule `name:"q21"`
	R22 tok.Rule `name:"q22"`
	R23 tok.Rule `name:"q23"`
	R24 tok.Rule `name:"q24"`
	R25 tok.Rule `name:"q25"`
	R26 tok.Rule `name:"q26"`
	R27 tok.Rule `name:"q27"`
	R28 tok.Rule `name:"q28"`
	R29 tok.Rule `name:"q29"`
	R30 tok.Rule `name:"q30"`
	R31 tok.Rule `name:"q31"`
	R32 tok.Rule `name:"q32"`
	R33 tok.Rule `name:"q33"`
	R34 tok.Rule `name:"q34"`
	R35 tok.Rule `name:"q35"`
	R36 tok.Rule `name:"q36"`
	R37 tok.Rule `name:"q37"`
	R38 tok.Rule `name:"q38"`
	R39 tok.Rule `name:"q39"`
	R40 tok.Rule `name:"q40"`
	R41 tok.Rule `name:"q41"`
	R42 tok.Rule `name:"q42"`
	R43 tok.Rule `name:"q43"`
	R44 tok.Rule `name:"q44"`
	R45 tok.Rule `name:"q45"`
	R46 tok.Rule `name:"q46"`
	R47 tok.Rule `name:"q47"`
	R48 tok.Rule `name:"q48"`
	R49 tok.Rule `name:"q49"`
	R50 tok.Rule `name:"q50"`
	R51 tok.Rule `name:"q51"`
	R52 tok.Rule `name:"q52"`
	R53 tok.Rule `name:"q53"`
	R54 tok.Rule `name:"q54"`
	R55 tok.Rule `name:"q55"`
	R56 tok.Rule `name:"q56"`
	R57 tok.Rule `name:"q57"`
	R58 tok.Rule `name:"q58"`
	R59 tok.Rule `name:"q59"`
	R60 tok.Rule `name:"q60"`
	R61 tok.Rule `name:"q61"`
	R62 tok.Rule `name:"q62"`
	R63 tok.Rule `name:"q63"`
	R64 tok.Rule `name:"q64"`
	R65 tok.Rule `name:"q65"`
	R66 tok.Rule `name:"q66"`
	R67 tok.Rule `name:"q67"`
	R68 tok.Rule `name:"q68"`
	R69 tok.Rule `name:"q69"`
}

func (g *shapeH) Grammar() []*tok.Rule { return tok.CollectRules(g) }

// a grammar that is just a list of rules
type listGrammar struct {
	base
	rules []*tok.Rule
}

func (g *listGrammar) Grammar() []*tok.Rule { return g.rules }

func panics(f func()) (res bool) {
	defer func() {
		if recover() != nil {
			res = true
		}
	}()
	f()
	return false
}

// a grammar with its expected rules, names after SetRuleNames, and whether that works
type shape struct {
	g     tok.Grammar
	rules []*tok.Rule
	names []string // per rule; "" = left as it is
	ok    bool
	rest  func() bool // other fields untouched
}

func newShape(i int) shape {
	if i >= 12 {
		return tagShape(i - 12)
	}
	switch i {
	case 0:
		g := &shapeA{Count: 7, Text: "t", List: []tok.Rule{{Name: "l"}}}
		g.Ptr = &tok.Rule{Name: "ptr"}
		return shape{g, []*tok.Rule{&g.One, &g.Two, &g.Three, &g.Four}, []string{"one", "two-2", "", "f.o+u_r"}, true,
			func() bool {
				return g.Count == 7 && g.Text == "t" && g.Ptr.Name == "ptr" && g.List[0].Name == "l" && g.Inner.X.Name == ""
			}}
	case 1:
		g := &shapeB{}
		return shape{g, []*tok.Rule{&g.A, &g.B, &g.C}, nil, false, func() bool { return g.B.Name != "1b" }}
	case 2:
		g := &shapeC{count: 3}
		return shape{g, []*tok.Rule{&g.A, &g.B, &g.C}, nil, false, func() bool { return g.C.Name != "c c" && g.count == 3 && g.hidden.Name == "" }}
	case 3:
		g := &shapeD{}
		return shape{g, nil, nil, true, func() bool { return true }}
	case 4:
		g := &shapeE{}
		return shape{g, []*tok.Rule{&g.Z, &g.Y, &g.X, &g.W, &g.V}, nil, false, func() bool { return g.L.Name == "" && g.V.Name != "v!" }}
	case 5:
		g := &shapeF{}
		return shape{g, []*tok.Rule{&g.A}, nil, false, func() bool { return g.x.Name == "" }}
	case 6:
		g := &shapeG{}
		return shape{g, []*tok.Rule{&g.R01, &g.R02, &g.R03, &g.R04, &g.R05, &g.R06, &g.R07, &g.R08, &g.R09, &g.R10, &g.R11, &g.R12},
			[]string{"r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12"}, true, func() bool { return true }}
	}
	switch i {
	case 8:
		return namesake1()
	case 9:
		return namesake2()
	case 10:
		return namesake3()
	}
	if i == 7 {
		g := &shapeH{}
		rules, names := []*tok.Rule{}, []string{}
		for k := 0; k < 70; k++ {
			rules = append(rules, reflect.ValueOf(g).Elem().FieldByName(fmt.Sprintf("R%02d", k)).Addr().Interface().(*tok.Rule))
			names = append(names, fmt.Sprintf("q%d", k))
		}
		return shape{g, rules, names, true, func() bool { return true }}
	}
	g := &ruleGrammar{}
	return shape{g, []*tok.Rule{&g.Start, &g.A, &g.B}, []string{"start", "a", "b"}, true, func() bool { return true }}
}

// types of the same name with different fields and tags
type lister struct {
	base
	list func() []*tok.Rule
}

func (l *lister) Grammar() []*tok.Rule { return l.list() }

func namesake1() shape {
	type namesake struct {
		lister
		A tok.Rule `name:"first"`
		B tok.Rule `name:"b"`
		C tok.Rule
	}
	g := &namesake{}
	sh := shape{g, []*tok.Rule{&g.A, &g.B, &g.C}, []string{"first", "b", ""}, true, func() bool { return true }}
	g.list = func() []*tok.Rule { return sh.rules }
	return sh
}

func namesake2() shape {
	type namesake struct {
		lister
		A tok.Rule `name:"second"`
		B int      `name:"b"`
		C tok.Rule `name:"third"`
	}
	g := &namesake{}
	sh := shape{g, []*tok.Rule{&g.A, &g.C}, []string{"second", "third"}, true, func() bool { return true }}
	g.list = func() []*tok.Rule { return sh.rules }
	return sh
}

func namesake3() shape {
	type namesake struct {
		lister
		A tok.Rule `name:"1st"`
		C tok.Rule `name:"third"`
		B tok.Rule `name:"b"`
	}
	g := &namesake{}
	sh := shape{g, []*tok.Rule{&g.A, &g.C, &g.B}, nil, false, func() bool { return g.A.Name != "1st" }}
	g.list = func() []*tok.Rule { return sh.rules }
	return sh
}

const numShapes = 12 + numTags

func runC20Shapes(t *T) {
	i := t.N(12)
	if t.P(1, 3) {
		i = 12 + t.N(numTags)
		t.Obs("one of many tags")
	}
	sh := newShape(i)
	t.Notef("shape %T", sh.g)
	got := tok.CollectRules(sh.g)
	if len(got) != len(sh.rules) {
		t.Failf("%T: %d rules collected, it has %d", sh.g, len(got), len(sh.rules))
	}
	for j := range got {
		if got[j] != sh.rules[j] {
			t.Failf("%T: rule %d is another field", sh.g, j)
		}
	}
	for j, r := range sh.rules {
		r.Name = fmt.Sprintf("before%d", j)
	}
	err := tok.SetRuleNames(sh.g)
	if (err == nil) != sh.ok {
		t.Failf("%T: SetRuleNames: %v, expected to work: %v", sh.g, err, sh.ok)
	}
	if !sh.rest() {
		t.Failf("%T: SetRuleNames changed another field or set an invalid name", sh.g)
	}
	if sh.ok {
		for j, r := range sh.rules {
			want := sh.names[j]
			if want == "" {
				want = fmt.Sprintf("before%d", j)
			}
			if r.Name != want {
				t.Failf("%T: rule %d is named %q, expected %q", sh.g, j, r.Name, want)
			}
		}
	}
	if p := panics(func() { tok.MustSetRuleNames(newShape(i).g) }); p != !sh.ok {
		t.Failf("%T: MustSetRuleNames panics: %v, expected %v", sh.g, p, !sh.ok)
	}
	if sh.ok {
		t.Obs("names set")
	} else {
		t.Obs("invalid name tag refused")
	}
	// readers and names at random
	wantOK := true
	for _, r := range sh.rules {
		r.Name = t.Str([]string{"a", "ab-c", "X1", "z.z"})
		r.Reader = goodArgReader(t)
		if t.P(1, 6*len(sh.rules)) {
			r.Name = t.Str([]string{"", "1", "-a", "a b", "a!", "ä", "aä", "a\n", " a", "a/", "_a", "a\xff", "aa,"})
		}
		if t.P(1, 6*len(sh.rules)) {
			r.Reader = nil
		}
		if r.Reader == nil || ruleNameLen(r.Name) != len(r.Name) || r.Name == "" {
			wantOK = false
		}
	}
	err = tok.CheckRules(sh.g)
	if (err == nil) != wantOK {
		names := []string{}
		for _, r := range sh.rules {
			names = append(names, fmt.Sprintf("%q(reader %v)", r.Name, r.Reader != nil))
		}
		t.Failf("%T with %v: CheckRules gives %v, expected valid: %v", sh.g, names, err, wantOK)
	}
	if p := panics(func() { tok.MustCheckRules(sh.g) }); p != !wantOK {
		t.Failf("%T: MustCheckRules panics: %v, expected %v", sh.g, p, !wantOK)
	}
	if wantOK {
		t.Obs("rules valid")
	} else {
		t.Obs("rules invalid")
	}
	l := []string{fmt.Sprint(i)}
	for _, r := range sh.rules {
		l = append(l, r.Name, fmt.Sprint(r.Reader == nil))
	}
	t.Distinct(l...)
}

func goodArgReader(t *T) tok.Reader {
	for {
		if r, ok := goodArg(t).(tok.Reader); ok {
			return r
		}
	}
}

// the grammars of the library are complete and valid
func runC20Lib(t *T) {
	gs := []tok.Grammar{grammar.JSON(), grammar.MXT(), grammar.Lua()}
	g := gs[t.idx%3]
	if err := tok.CheckRules(g); err != nil {
		t.Failf("%s: %v", g.What(), err)
	}
	lines := tok.GrammarLines(g.Grammar())
	if tok.AnyHasInvalidReader(lines) {
		t.Failf("%s has an invalid reader", g.What())
	}
	// one broken rule among the rules of a complete grammar
	rules := g.Grammar()
	if t.P(1, 2) {
		n := t.few(30, 200)
		l := &listGrammar{}
		for i := 0; i <= n; i++ {
			l.rules = append(l.rules, &tok.Rule{Name: fmt.Sprintf("r%d", i), Reader: goodArgReader(t)})
		}
		g, rules = l, l.rules
		if err := tok.CheckRules(g); err != nil {
			t.Failf("a list of %d valid rules: %v", n+1, err)
		}
	}
	k := t.N(len(rules))
	was := *rules[k]
	if t.P(1, 2) {
		rules[k].Reader = nil
	} else {
		rules[k].Name = t.Str([]string{"", "1", "a b", "_", "é", was.Name + "!", " " + was.Name, was.Name + "\n"})
	}
	if tok.CheckRules(g) == nil || !panics(func() { tok.MustCheckRules(g) }) {
		t.Failf("%s: rule %d of %d is broken (%q, reader %v), the check does not fail", g.What(), k, len(rules), rules[k].Name, rules[k].Reader != nil)
	}
	t.Obs("broken rule in a complete grammar")
	*rules[k] = was
	if err := tok.CheckRules(g); err != nil {
		t.Failf("%s: the repaired grammar is refused: %v", g.What(), err)
	}
	t.Obs("library grammar")
	t.Distinct(lines...)
}

// ------------------------------------------------------------------------- C21

func (t *T) janusBegin(c *genCfg) *Expr {
	switch t.N(7) {
	case 0:
		return &Expr{k: kZom, subs: []*Expr{{k: kLit, s: t.Str(c.alpha)}}}
	case 1:
		return &Expr{k: kMany, subs: []*Expr{t.leaf(c)}}
	case 2:
		return &Expr{k: kOpt, subs: []*Expr{t.leaf(c)}}
	case 3:
		return &Expr{k: kAny, subs: []*Expr{t.leaf(c), t.leaf(c)}}
	case 4:
		return &Expr{k: kSeq, subs: []*Expr{t.leaf(c), t.leaf(c)}}
	}
	return t.expr(c, 2, 0)
}

func hole() *Expr { return &Expr{k: kLit, hole: true} }

// rest: an expression with the end of the pair in it
func (t *T) janusRest(c *genCfg, d int) *Expr {
	sub := func() *Expr { return t.janusRest(c, d-1) }
	lit := func() *Expr { return &Expr{k: kLit, s: t.Str(c.alpha)} }
	if d <= 0 {
		return hole()
	}
	switch t.N(13) {
	case 0:
		return hole()
	case 1:
		return &Expr{k: kPast, subs: []*Expr{sub()}}
	case 2:
		return &Expr{k: kPast, subs: []*Expr{{k: kSeq, subs: []*Expr{hole(), lit()}}}}
	case 3:
		return &Expr{k: kSeq, subs: []*Expr{{k: kTo, subs: []*Expr{sub()}}, hole()}}
	case 4:
		return &Expr{k: kPast, subs: []*Expr{{k: kSeq, subs: []*Expr{lit(), hole(), lit()}}}}
	case 5:
		return &Expr{k: kAny, subs: []*Expr{{k: kSeq, subs: []*Expr{hole(), lit()}}, sub()}}
	case 6:
		return &Expr{k: kTimes, n: t.In(1, 3), subs: []*Expr{hole()}}
	case 7:
		return &Expr{k: kZom, subs: []*Expr{hole()}}
	case 8:
		return &Expr{k: kSeq, subs: []*Expr{{k: kOpt, subs: []*Expr{{k: kSeq, subs: []*Expr{sub(), lit()}}}}, sub()}}
	case 9:
		return &Expr{k: kSeq, subs: []*Expr{{k: kAt, subs: []*Expr{hole()}}, sub()}}
	case 10:
		return &Expr{k: kBodyTail, subs: []*Expr{{k: kZom, subs: []*Expr{t.leaf(c)}}, hole()}}
	case 11:
		return &Expr{k: kSeq, subs: []*Expr{{k: kZom, subs: []*Expr{{k: kNot, subs: []*Expr{hole()}}}}, hole()}}
	}
	return &Expr{k: kSkipSeq, subs: []*Expr{{k: kZom, subs: []*Expr{lit()}}, sub(), t.leaf(c)}}
}

func runC21(t *T) {
	c := &genCfg{alpha: t.drawAlpha()}
	begE := t.janusBegin(c)
	bp := &Prog{start: begE}
	bp.number()
	bb := bp.build(true, false)
	beg, end := tok.Janus(t.janusName(), bb.start)
	rp := &Prog{start: t.janusRest(c, t.In(0, 3))}
	rp.number()
	rb := rp.buildHole(true, false, end)
	holes := []*Expr{}
	for _, n := range rp.nodes {
		if n.hole {
			holes = append(holes, n)
		}
	}
	t.Notef("begin %s", bp)
	t.Notef("rest %s", rp)
	known := false
	slot := ""
	// texts: samples with closers and look-alikes
	draw := func() string {
		var b strings.Builder
		fuel := 40
		t.sample(bp, c, begE, &b, &fuel)
		open := b.String()
		for i := t.Size(12); i > 0; i-- {
			switch t.N(5) {
			case 0:
				b.WriteString(open)
			case 1:
				if len(open) > 0 {
					b.WriteString(open[:t.N(len(open))])
				}
			case 2:
				for _, h := range holes {
					h.s = open
				}
				t.sample(rp, c, rp.start, &b, &fuel)
			default:
				b.WriteString(t.Str(c.alpha))
			}
		}
		if t.P(1, 2) {
			b.WriteString(open)
		}
		return b.String()
	}
	text := draw()
	s := tok.NewScanner(text)
	for i := t.In(2, 8); i > 0; i-- {
		if t.P(1, 4) {
			text = draw()
			s = tok.NewScanner(text)
		}
		if t.P(1, 6) {
			s.ToMarker(tok.Marker(t.In(0, len(text))))
		}
		pos := int(s.Mark())
		switch t.N(5) {
		case 0, 1: // begin
			m, n, err := t.refRun(bp, bb, text, pos)
			if m.skip {
				return
			}
			t.Notef("begin at %d of %q", pos, text)
			got := s.Use(beg)
			if (got == nil) != (err == nil) || err == nil && int(s.Mark()) != n {
				t.Failf("the first half gives %v and stands at %d of %q, its reader ends at %d (failure: %v)", got, s.Mark(), text, n, err != nil)
			}
			if err == nil {
				slot, known = text[pos:n], true
				t.Obs("begin read")
			} else {
				t.Obs("begin failed")
			}
		case 2: // begin and the end at once
			m, n, err := t.refRun(bp, bb, text, pos)
			if m.skip {
				return
			}
			t.Notef("begin and rest at %d of %q", pos, text)
			if err == nil {
				slot, known = text[pos:n], true
			}
			if !known {
				continue
			}
			for _, h := range holes {
				h.s = slot
			}
			want, wantErr := pos, err
			if err == nil {
				m2, n2, err2 := t.refRun(rp, rb, text, n)
				if m2.skip {
					// the pair would still be read: stop here
					return
				}
				wantErr = err2
				if err2 == nil {
					want = n2
				}
			}
			got := s.Use(tok.Seq(beg, rb.start))
			judgeJanus(t, s, got, want, wantErr, slot, text, pos)
			t.Obs("begin and rest")
			t.Distinct("seq", bp.String(), rp.String(), text, fmt.Sprint(pos))
		case 3: // the rest alone
			if !known {
				continue
			}
			for _, h := range holes {
				h.s = slot
			}
			m, n, err := t.refRun(rp, rb, text, pos)
			if m.skip {
				return
			}
			t.Notef("rest at %d of %q, expects %q", pos, text, slot)
			want := pos
			if err == nil {
				want = n
			}
			got := s.Use(rb.start)
			judgeJanus(t, s, got, want, err, slot, text, pos)
			t.Obs("rest alone")
			t.Distinct("rest", rp.String(), slot, text, fmt.Sprint(pos))
			t.Sample("pair of %s, then %s with %q on %q: %v", clip(bp.String(), 80), clip(rp.String(), 120), slot, clip(text, 60), got)
		default: // the end alone
			if !known {
				continue
			}
			ok := strings.HasPrefix(text[pos:], slot)
			t.Notef("end at %d of %q, expects %q", pos, text, slot)
			got := s.Use(end)
			want := pos
			if ok {
				want += len(slot)
			}
			if (got == nil) != ok || int(s.Mark()) != want {
				t.Failf("the end reads from %d to %d of %q (%v), it expects %q", pos, s.Mark(), text, got, slot)
			}
			if ok {
				t.Obs("end read")
			} else {
				t.Obs("end failed")
			}
		}
	}
}

func judgeJanus(t *T, s *tok.Scanner, got error, want int, wantErr *rerr, slot, text string, pos int) {
	if (got == nil) != (wantErr == nil) {
		t.Failf("error %v at %d of %q, expected success: %v (the second half is %q)", got, pos, text, wantErr == nil, slot)
	}
	if int(s.Mark()) != want {
		t.Failf("read from %d to %d of %q, expected to %d (the second half is %q)", pos, s.Mark(), text, want, slot)
	}
}

// Lua long strings and comments
func runC21Lua(t *T) {
	g := &luaGen{t: t}
	pre := ""
	r := grammar.LuaString()
	if t.P(1, 2) {
		pre = "--"
		r = grammar.LuaComment()
	}
	for i := t.In(1, 4); i > 0; i-- { // the same reader again
		str := g.longBracket(pre)
		tail := t.Str([]string{"", "]]", "]=]", " x", "\n", "]"})
		if t.P(1, 4) && pre == "" { // unterminated
			cut := strings.LastIndex(str, "]")
			e, _ := luaLong(str[:cut], len(pre))
			if e < 0 {
				s := tok.NewScanner(str[:cut])
				if err := s.Use(r); err == nil {
					t.Failf("the unterminated %q is read up to %d", str[:cut], s.Mark())
				}
				t.Obs("unterminated")
			}
		}
		t.Notef("text %q", str+tail)
		s := tok.NewScanner(str + tail)
		if err := s.Use(r); err != nil {
			t.Failf("%q is rejected: %v", str, err)
		}
		if int(s.Mark()) != len(str) {
			t.Failf("%q is read up to %d, expected %d", str+tail, s.Mark(), len(str))
		}
		t.Obs("Lua long bracket")
		t.Distinct(str)
	}
}

// two pairs do not share anything
// several pairs, also of the same name, used in turns on several scanners
func (t *T) janusName() string {
	return t.Str([]string{"", "n", "m", "quote", "lbr", "a longer name of a pair", t.Text(8)})
}

func runC21Several(t *T) {
	n := t.In(2, 5)
	alpha := []string{"=", "-", "a", "é", "\xff", "K"}
	begs, ends := []tok.Reader{}, []tok.Reader{}
	slot, known := make([]string, n), make([]bool, n)
	some := make([]bool, n) // needs one rune at least
	same := t.janusName()   // pairs of the same name have nothing in common
	name := func() string {
		if t.P(1, 2) {
			return same
		}
		return t.janusName()
	}
	for i := 0; i < n; i++ {
		inner := tok.Not(tok.AnyRune("|"))
		r := tok.Many(inner)
		some[i] = true
		if t.P(1, 2) {
			r = tok.Zom(inner)
			some[i] = false
		}
		b, e := tok.Janus(name(), r)
		begs, ends = append(begs, b), append(ends, e)
	}
	texts := []string{}
	scas := []*tok.Scanner{}
	for i := t.In(1, 3); i > 0; i-- {
		var b strings.Builder
		for k := t.In(1, 8); k > 0; k-- {
			for l := t.tail(t.Size(20), 3000); l > 0; l-- {
				b.WriteString(t.Str(alpha))
			}
			b.WriteString("|")
		}
		texts = append(texts, b.String())
		scas = append(scas, tok.NewScanner(b.String()))
	}
	for i := t.In(4, 24); i > 0; i-- {
		j := t.N(n)
		k := t.N(len(scas))
		s, text := scas[k], texts[k]
		if t.P(1, 2) {
			s.ToMarker(tok.Marker(t.In(0, len(text))))
		}
		if t.P(1, 4) { // a place where the expected text stands
			if p := strings.Index(text, slot[j]); p >= 0 {
				s.ToMarker(tok.Marker(p))
			}
		}
		pos := int(s.Mark())
		if t.P(1, 2) || !known[j] {
			z := pos
			for z < len(text) && text[z] != '|' {
				z++
			}
			t.Notef("begin of pair %d at %d of %q", j, pos, text)
			err := s.Use(begs[j])
			if (err == nil) != (z > pos || !some[j]) || err == nil && int(s.Mark()) != z {
				t.Failf("the first half gives %v and stands at %d of %q, expected to read up to %d", err, s.Mark(), text, z)
			}
			if err == nil {
				slot[j], known[j] = text[pos:z], true
			}
			continue
		}
		ok := strings.HasPrefix(text[pos:], slot[j])
		t.Notef("end of pair %d at %d of %q, expects %q", j, pos, text, slot[j])
		err := s.Use(ends[j])
		want := pos
		if ok {
			want += len(slot[j])
		}
		if (err == nil) != ok || int(s.Mark()) != want {
			t.Failf("the second half at %d of %q gives %v and position %d, the first one read %q", pos, text, err, s.Mark(), slot[j])
		}
		t.Obs("one of several pairs")
		t.Distinct(fmt.Sprint(j, pos), slot[j], text)
	}
}

func runC21Two(t *T) {
	a, b := t.Str([]string{"a", "xx", "<", "[=", "é", "\xff"}), t.Str([]string{"b", "x", "<<", "[", "ä", "1"})
	beg1, end1 := tok.Janus("", tok.Many(tok.Not(tok.AnyRune("|"))))
	beg2, end2 := tok.Janus("", tok.Many(tok.Not(tok.AnyRune("|"))))
	body := t.Str([]string{"|", "||", "|q", "|" + a + "q|"})
	text := a + "|" + b + body + "|" + b + "|" + a + "|"
	r := tok.Seq(beg1, '|', beg2, tok.Past(tok.Seq('|', end2, '|', end1, '|')))
	t.Notef("text %q", text)
	s := tok.NewScanner(text)
	if err := s.Use(r); err != nil || !s.AtEnd() {
		t.Failf("two pairs on %q: %v at %d", text, err, s.Mark())
	}
	// nested: the inner one of the other text fails
	s = tok.NewScanner(b + "|" + a)
	if err := s.Use(tok.Seq(end2, '|', end1)); err != nil {
		t.Failf("after %q and %q the ends do not read them: %v", a, b, err)
	}
	t.Obs("two pairs")
	t.Distinct(text)
}

func init() {
	register(&Prop{ID: "C06", Rule: "random reader programs (repetitions of parts that can be empty among them), and JSON, MXT and Lua texts cut off at every byte, mutated, unterminated or of long runs, with a limit of reads and scanner moves and a CPU watchdog; non-trivial: more than 4 reads, distinct by program and text",
		Floors: []string{"giant case", "repetition", "repetition ended by a part that read nothing", "search", "search without result", "repetition of a part that can be empty", "reads watched", "moves watched", "JSON cut off", "JSON text", "MXT cut off", "MXT text", "Lua cut off", "Lua text"},
		Assume: []string{"limits: the reference evaluation of the same program times a constant; 400 moves per byte for JSON; quadratic for MXT; 25 CPU seconds per case otherwise", "left-recursive and exponential programs are left out (counted as skipped)"},
		Suites: []Suite{{"programs", 120000, 5000000, runC06}, {"empty repetitions", 60000, 2000000, runC06Empty}, {"JSON", 3000, 100000, runC06JSON}, {"MXT", 2000, 60000, runC06MXT}, {"Lua", 1200, 40000, runC06Lua}, {"giants", 800, 30000, giant(runC06)}}})
	register(&Prop{ID: "C13", Rule: "random reader programs with monitors at random places and probes that record the real calls, JSON grammars with monitored rules, and logs written by hand; several reads and resets per log; non-trivial: more than 2 entries, distinct by program and text",
		Floors: []string{"giant case", "giant log", "log entries", "log entries with error", "log entries below level 2", "reset", "preview shown", "MonitorGrammar", "long log", "log by hand", "preview behind the text", "reset with open entries", "exit of a dropped entry", "reset within a read", "stacked log", "two logs"},
		Assume: []string{"probes inside the monitored readers record position and error of every read"},
		Suites: []Suite{{"programs", 60000, 3000000, runC13}, {"JSON grammar", 4000, 200000, runC13Grammar}, {"by hand", 20000, 800000, runC13Log}, {"stacked", 8000, 300000, runStacked}, {"reset within a read", 10000, 400000, runC13Within}, {"giants", 600, 20000, giant(runC13)}, {"long logs", 60, 3000, runC13Giant}}})
	register(&Prop{ID: "C18", Rule: "readers and grammars used on several texts against new ones, and concurrent reads with 4 goroutines under the race detector; non-trivial: distinct by program and text, and by the order of the reads of the goroutines (schedule)",
		Floors: []string{"giant case", "reader used again", "JSON used again", "MXT used again", "Lua used again", "concurrent reads", "read within a read", "JSON read within a read", "goroutine switches between reads"},
		Assume: []string{"the race detector sees the races of the schedules that ran"},
		Suites: []Suite{{"used again", 12000, 500000, runC18Reuse}, {"grammars used again", 3000, 100000, runC18Grammar}, {"concurrent", 500, 20000, runC18Conc}, {"read within a read", 8000, 400000, runReenter}, {"JSON within JSON", 2000, 80000, runReenterJSON}, {"giants", 400, 15000, giant(runC18Reuse)}}})
	fl := []string{"rule described", "no marker", "valid name", "invalid name", "names set", "invalid name tag refused", "one of many tags", "rules valid", "rules invalid", "library grammar", "broken rule in a complete grammar", "valid BetweenAny", "invalid BetweenAny", "valid Set", "invalid Set", "valid BuildBetweenAny", "invalid BuildBetweenAny"}
	for k := 0; k < 9; k++ {
		_, n := listCons(k, []interface{}{"a"})
		fl = append(fl, "valid "+n, "invalid "+n)
	}
	for _, k := range []kind{kAny, kSeq, kSkipSeq, kSkipWSSeq, kMany, kZom, kOpt, kTimes, kAt, kNot, kTo, kPast, kBody, kBodyTail, kMap, kPick, kMonitor} {
		fl = append(fl, "marker within "+kindNames[k])
	}
	register(&Prop{ID: "C20", Rule: "constructors with valid and invalid argument lists, mutated range strings, programs with invalid parts at random places, names (every byte at every kind of place), grammar structs of 8 shapes with random names and missing readers and of 71 field tags; distinct by argument types, ranges, program, name and shape",
		Floors: fl, Assume: []string{"a name or rule describes itself by its name only, so the marker of its part does not show through it"},
		Suites: []Suite{{"library", 3000, 60000, runC20Lib}, {"arguments", 40000, 1000000, runC20Args}, {"ranges", 40000, 1000000, runC20Ranges}, {"compositions", 60000, 2000000, runC20Comp}, {"names", 20000, 1000000, runC20Names}, {"shapes", 20000, 600000, runC20Shapes}}})
	register(&Prop{ID: "C21", Rule: "Janus pairs of random readers, the second half inside of random searches, repetitions, lookaheads and alternatives, on texts with closers and look-alikes; Lua long brackets with decoys; non-trivial: the second half was tried, distinct by pair, rest and text",
		Floors: []string{"begin read", "begin failed", "begin and rest", "rest alone", "end read", "end failed", "Lua long bracket", "unterminated", "two pairs", "one of several pairs"},
		Assume: []string{"the reference semantics in harness/expr.go with the second half as a literal"},
		Suites: []Suite{{"pairs", 100000, 4000000, runC21}, {"Lua", 20000, 600000, runC21Lua}, {"several pairs", 10000, 400000, runC21Several}, {"two pairs", 500, 2000, runC21Two}}})
}
