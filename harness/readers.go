package main

import (
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// exprCase draws a program with texts and runs f for each text that has a
// reference result.
type exprCase struct {
	p    *Prog
	c    *genCfg
	b    *built
	text string
	pos  int
	m    *model
	end  int
	err  *rerr
}

func (t *T) drawProg(c *genCfg) *Prog {
	if t.giant {
		return t.giantProg(c)
	}
	d := t.In(1, 4)
	if t.P(1, 20) {
		d = 6
	}
	p := t.prog(c, d)
	t.Notef("reader %s", p)
	return p
}

func (t *T) refRun(p *Prog, b *built, text string, pos int) (*model, int, *rerr) {
	m := newModel(p, b, text)
	if t.giant {
		m.fuel = 2000000
	}
	n, err := m.eval(p.start, pos, len(text))
	return m, n, err
}

func (t *T) size() int {
	switch t.N(12) {
	case 0:
		return 600
	case 1, 2:
		return 120
	}
	return 40
}

func (m *model) note(t *T, err *rerr) {
	for k, n := range m.seen {
		t.ObsN("read "+kindNames[k], n)
	}
	for k, n := range m.fails {
		t.ObsN("fail "+kindNames[k], n)
	}
	if err == nil {
		t.Obs("program success")
	} else {
		t.Obs("program failure")
	}
}

func allKindFloors(skip ...kind) []string {
	l := []string{"giant case", "program success", "program failure"}
	for k := kind(0); k < numKinds; k++ {
		ok := true
		for _, s := range skip {
			if s == k {
				ok = false
			}
		}
		if ok {
			l = append(l, "read "+kindNames[k])
		}
	}
	return l
}

// --------------------------------------------------------------------------- C05

func runC05(t *T) {
	c := &genCfg{values: true, invalid: t.P(1, 10), observers: t.P(1, 5)}
	p := t.drawProg(c)
	b := p.build(false, false)
	for i := 0; i < 4; i++ {
		text, pos := t.progText(p, c, t.size())
		m, end, err := t.refRun(p, b, text, pos)
		if m.skip {
			t.Obs("skipped (left recursion or too long)")
			continue
		}
		t.Notef("at %d of %q", pos, text)
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(pos))
		got := s.Use(b.start)
		np := int(s.Mark())
		if err == nil && got != nil {
			t.Failf("failed with %q at %d of %q, expected to read up to %d", got, pos, text, end)
		}
		if err != nil && got == nil {
			t.Failf("read %q at %d of %q, expected a failure", text[pos:imax(pos, np)], pos, text)
		}
		if err == nil && np != end {
			t.Failf("read from %d to %d of %q, expected to read up to %d", pos, np, text, end)
		}
		m.note(t, err)
		if m.steps > 4 && (err == nil && end > pos || err != nil) {
			t.Distinct(p.String(), text, fmt.Sprint(pos))
		}
		if err == nil && end > pos {
			t.Sample("%s reads %q up to %d", clip(p.String(), 160), clip(text[pos:], 60), end)
		}
	}
}

// --------------------------------------------------------------------------- C04

func runC04(t *T) {
	c := &genCfg{values: true, invalid: t.P(1, 10), observers: t.P(1, 3)}
	p := t.drawProg(c)
	b := p.build(false, true)
	text, pos := t.progText(p, c, t.size())
	m, _, _ := t.refRun(p, b, text, pos)
	if m.skip {
		t.Obs("skipped (left recursion or too long)")
		return
	}
	b.maxCalls = m.steps*8 + 1000
	t.Notef("at %d of %q", pos, text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	s.Tracker = b.basket
	err := s.Use(b.start)
	if err != nil && int(s.Mark()) != pos {
		t.Failf("Use failed (%v) and left the scanner at %d instead of %d", err, s.Mark(), pos)
	}
	fails := 0
	for _, cl := range b.calls {
		if !cl.done {
			continue
		}
		if cl.err != nil {
			fails++
			t.Obs("failed " + kindNames[cl.e.k])
			if cl.from != cl.to {
				t.Failf("%s failed (%v) and left the scanner at %d instead of %d of %q", cl.e, cl.err, cl.to, cl.from, text)
			}
			if cl.e.k == kSeq && len(cl.sub) > 1 || cl.e.k == kTimes && len(cl.sub) > 1 {
				t.Obs("failed after a part was read")
			}
		} else if cl.e.k == kAt && cl.from != cl.to {
			t.Failf("lookahead %s moved the scanner from %d to %d of %q", cl.e, cl.from, cl.to, text)
		}
		switch cl.e.k {
		case kAny:
			for _, i := range cl.sub {
				if b.calls[i].from != cl.from {
					t.Failf("alternative of %s was tried at %d instead of %d of %q", cl.e, b.calls[i].from, cl.from, text)
				}
			}
		case kOpt, kZom, kMany:
			want := cl.from
			for _, i := range cl.sub {
				if b.calls[i].from != want {
					t.Failf("%s went on at %d instead of %d of %q", cl.e, b.calls[i].from, want, text)
				}
				if b.calls[i].err == nil {
					want = b.calls[i].to
				}
			}
			if cl.err == nil && cl.to != want {
				t.Failf("%s ended at %d instead of %d of %q", cl.e, cl.to, want, text)
			}
		}
	}
	// the same reads without a probe in between
	u := p.build(false, false)
	direct := func(e *Expr, at int) {
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(at))
		s.Tracker = u.basket
		if err := u.nodes[e.id].Read(s); int(s.Mark()) != at && (err != nil || e.k == kAt) {
			t.Failf("%s, used alone, returned %v and left the scanner at %d instead of %d of %q", e, err, s.Mark(), at, text)
		}
		t.Obs("used alone")
	}
	direct(p.start, pos)
	if fails > 0 && !p.has(kBody, kBodyTail) {
		for i := 0; i < 4; i++ {
			cl := b.calls[t.N(len(b.calls))]
			if cl.done && (cl.err != nil || cl.e.k == kAt) {
				direct(cl.e, cl.from)
			}
		}
	}
	t.ObsN("reads watched", len(b.calls))
	if fails > 0 {
		t.Distinct(p.String(), text, fmt.Sprint(pos))
		t.Sample("%s on %q: %d reads, %d failed", clip(p.String(), 160), clip(text, 60), len(b.calls), fails)
	}
}

// badReader moves and then fails or succeeds: the scoped calls have to clean up.
type badReader struct {
	f func(s *tok.Scanner) error
}

func (r *badReader) Read(s *tok.Scanner) error { return r.f(s) }
func (r *badReader) What() string              { return "bad" }

func (t *T) scriptOps(text string, pos int) []op {
	l := []op{}
	for i := t.In(0, 4); i > 0; i-- {
		switch t.N(3) {
		case 0:
			l = append(l, t.moveOp(text, pos))
		case 1:
			l = append(l, t.fwdOp(text, pos))
		default:
			l = append(l, t.revOp(text, pos))
		}
	}
	return l
}

var scopeKinds = []string{"Scope", "Trace", "Use", "UseFunc", "TraceUse", "TraceUseFunc", "Tokenize", "TokenizeUse", "Capture", "CaptureUse", "Wrap", "nested"}

func runScopes(t *T) {
	text := t.Text(30)
	pos := t.Position(text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	t.Notef("text %q", text)
	for i := 0; i < 5; i++ {
		pos = int(s.Mark())
		ops := t.scriptOps(text, pos)
		fail := t.P(2, 3)
		moved, left := false, -1
		script := func(x *tok.Scanner) {
			if x != s {
				t.Failf("the body was given another scanner")
			}
			for _, o := range ops {
				o.run(s)
			}
			left = int(s.Mark())
			moved = left != pos
		}
		k := t.N(len(scopeKinds))
		t.Notef("at %d: %s fail=%v", pos, scopeKinds[k], fail)
		for _, o := range ops {
			t.Notef("   %s", o.name)
		}
		var fe error // made when it is nil
		if fail {
			switch t.N(5) {
			case 0:
				fe = errors.New("broken")
			case 1:
				fe = &tok.ReadError{Marker: tok.Marker(t.In(0, len(text))), What: "pointer"}
			case 2:
				fe = fmt.Errorf("wrapped: %w", tok.ReadError{Marker: 1, What: "inner"})
			case 3:
				fe = tok.ReadError{Marker: tok.Marker(t.In(0, len(text))), What: "elsewhere"}
			}
			if fe != nil {
				t.Obs("failed with an error of its own")
			}
		}
		failed := callScope(s, k, script, fail, fe)
		if failed != fail {
			t.Failf("%s: failed=%v, expected %v", scopeKinds[k], failed, fail)
		}
		if failed {
			if int(s.Mark()) != pos {
				t.Failf("%s failed and left the scanner at %d instead of %d of %q", scopeKinds[k], s.Mark(), pos, text)
			}
			if moved {
				t.Obs(scopeKinds[k] + " undone")
				t.Distinct(text, scopeKinds[k], fmt.Sprint(pos, ops))
			}
		} else {
			if int(s.Mark()) != left {
				t.Failf("%s succeeded and left the scanner at %d, its body stopped at %d of %q", scopeKinds[k], s.Mark(), left, text)
			}
			if moved {
				t.Obs(scopeKinds[k] + " kept")
			}
		}
	}
}

func callScope(s *tok.Scanner, k int, script func(*tok.Scanner), fail bool, fe error) bool {
	f := func() bool { script(s); return !fail }
	rf := func(s *tok.Scanner) error {
		script(s)
		if fe != nil {
			return fe
		}
		return s.ErrorIfFalse(!fail, "func")
	}
	r := &badReader{rf}
	switch scopeKinds[k] {
	case "Scope":
		return !s.Scope(f)
	case "Trace":
		_, ok := s.Trace(f)
		return !ok
	case "Use":
		return s.Use(r) != nil
	case "UseFunc":
		return s.UseFunc(rf) != nil
	case "TraceUse":
		_, err := s.TraceUse(r)
		return err != nil
	case "TraceUseFunc":
		_, err := s.TraceUseFunc(rf)
		return err != nil
	case "Tokenize":
		_, ok := s.Tokenize(f)
		return !ok
	case "TokenizeUse":
		_, err := s.TokenizeUse(r)
		return err != nil
	case "Capture":
		_, ok := s.Capture(f)
		return !ok
	case "CaptureUse":
		_, err := s.CaptureUse(r)
		return err != nil
	case "Wrap":
		return tok.Wrap("w", rf).Read(s) != nil
	default: // nested
		return !s.Scope(func() bool {
			s.Scope(func() bool { script(s); return true })
			_, e := s.CaptureUse(tok.Wrap("w", rf))
			return e == nil
		})
	}
}

func runValueFail(t *T) {
	base, bits := t.drawBaseBits()
	text := t.numText(base, bits)
	switch t.N(3) {
	case 0:
		text = t.Str([]string{"-", "+", "-x", "+ 1", "--1", "-\xff", "tru", "fals", "TRU", ""}) + t.Text(3)
	case 1:
		text = t.Text(6)
	}
	pos := t.Position(text)
	o := t.otherOp(text, pos)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	t.Notef("%s at %d of %q", o.name, pos, text)
	if !o.run(s) {
		t.Obs("failed value read or scope")
		if int(s.Mark()) != pos {
			t.Failf("%s failed at %d of %q and left the scanner at %d", o.name, pos, text, s.Mark())
		}
	}
}

// --------------------------------------------------------------------------- C06

type stepTracker struct {
	n, max int
	last   tok.Marker
}

func (s *stepTracker) Update(m tok.Marker) {
	s.n++
	s.last = m
	if s.n > s.max {
		panic(tooMany{})
	}
}

func runC06(t *T) {
	c := &genCfg{values: true, invalid: t.P(1, 10), observers: t.P(1, 6)}
	p := t.drawProg(c)
	b := p.build(false, true)
	text, pos := t.progText(p, c, t.size())
	m, _, _ := t.refRun(p, b, text, pos)
	if m.skip {
		t.Obs("skipped (left recursion or too long)")
		return
	}
	t.Notef("at %d of %q", pos, text)
	b.maxCalls = m.steps*6 + 2000
	// a leaf (a rule name, a number) may move once or more per byte it looks at
	tr := &stepTracker{max: moveLimit(t, m.steps, text)}
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	s.Tracker = tr
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(tooMany); ok {
					t.Failf("more than %d reads or %d moves on a text of %d bytes (the reference needs %d steps)", b.maxCalls, tr.max, len(text), m.steps)
				}
				panic(x)
			}
		}()
		s.Use(b.start)
	}()
	for _, cl := range b.calls {
		switch cl.e.k {
		case kZom, kMany:
			for j, i := range cl.sub {
				if j+1 < len(cl.sub) && (b.calls[i].err != nil || b.calls[i].from == b.calls[i].to) {
					t.Failf("%s went on after its part did not advance at %d of %q", cl.e, b.calls[i].from, text)
				}
				if b.calls[i].err == nil && b.calls[i].from == b.calls[i].to {
					t.Obs("repetition ended by a part that read nothing")
				}
			}
			t.Obs("repetition")
		case kTo, kPast, kBody, kBodyTail:
			if len(cl.sub) > 2*(len(text)+2)+2 {
				t.Failf("%s tried its parts %d times on a text of %d bytes", cl.e, len(cl.sub), len(text))
			}
			t.Obs("search")
			if cl.err != nil {
				t.Obs("search without result")
			}
		}
	}
	unwatched(t, p, text, pos, m.steps)
	t.ObsN("reads watched", len(b.calls))
	t.ObsN("moves watched", tr.n)
	if len(b.calls) > 4 {
		t.Distinct(p.String(), text)
		t.Sample("%s on %q: %d reads, %d moves", clip(p.String(), 160), clip(text, 60), len(b.calls), tr.n)
	}
}

// moveLimit: a leaf may look at the whole rest of the text; the leaves of the
// giants that are read again and again do not
func moveLimit(t *T, steps int, text string) int {
	if t.giant {
		return 60*steps + 100*len(text) + 20000
	}
	return steps*(40+10*len(text)) + 20*len(text) + 20000
}

// unwatched: the same read without probes between the readers; only the moves
// and the CPU time are watched.
func unwatched(t *T, p *Prog, text string, pos, steps int) {
	u := p.build(false, false)
	tr := &stepTracker{max: moveLimit(t, steps, text)}
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	s.Tracker = tr
	t.Notef("again without probes")
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(tooMany); ok {
				t.Failf("more than %d moves on a text of %d bytes (the reference needs %d steps)", tr.max, len(text), steps)
			}
			panic(x)
		}
	}()
	s.Use(u.start)
	t.Obs("read without probes")
}

// repetitions of parts that can match nothing, on every kind of rest
func runC06Empty(t *T) {
	c := &genCfg{alpha: t.drawAlpha()}
	empt := func() *Expr {
		switch t.N(9) {
		case 0:
			return &Expr{k: kLit}
		case 1:
			return &Expr{k: kOpt, subs: []*Expr{t.leaf(c)}}
		case 2:
			return &Expr{k: kZom, subs: []*Expr{t.leaf(c)}}
		case 3:
			return &Expr{k: kAt, subs: []*Expr{t.leaf(c)}}
		case 4:
			return &Expr{k: kAtEnd}
		case 5:
			return &Expr{k: kSeq}
		case 6:
			return &Expr{k: kTimes, n: 0, subs: []*Expr{t.leaf(c)}}
		case 7:
			return &Expr{k: kTo, subs: []*Expr{t.leaf(c)}}
		default:
			return &Expr{k: kSkipWSSeq, bare: true}
		}
	}
	e := empt()
	for i := t.In(1, 5); i > 0; i-- {
		switch t.N(6) {
		case 0, 1:
			e = &Expr{k: kZom, subs: []*Expr{e}}
		case 2:
			e = &Expr{k: kMany, subs: []*Expr{e}}
		case 3:
			e = &Expr{k: kAny, subs: []*Expr{t.leaf(c), e}}
		case 4:
			e = &Expr{k: kSkipSeq, subs: []*Expr{e, empt()}}
		default:
			e = &Expr{k: kSeq, subs: []*Expr{e, {k: kOpt, subs: []*Expr{t.leaf(c)}}}}
		}
	}
	e = &Expr{k: kZom, subs: []*Expr{e}}
	p := &Prog{start: e}
	p.number()
	t.Notef("reader %s", p)
	b := p.build(false, true)
	text := ""
	for i := t.Size(40); i > 0; i-- {
		text += t.Str(c.alpha)
	}
	m, _, _ := t.refRun(p, b, text, 0)
	if m.skip {
		t.Obs("skipped (left recursion or too long)")
		return
	}
	t.Notef("text %q", text)
	b.maxCalls = m.steps*6 + 2000
	s := tok.NewScanner(text)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(tooMany); ok {
					t.Failf("more than %d reads on a text of %d bytes (the reference needs %d steps)", b.maxCalls, len(text), m.steps)
				}
				panic(x)
			}
		}()
		s.Use(b.start)
	}()
	unwatched(t, p, text, 0, m.steps)
	t.Obs("repetition of a part that can be empty")
	t.Distinct(p.String(), text)
}

// --------------------------------------------------------------------------- C08

func runC08(t *T) {
	c := &genCfg{values: true, observers: true}
	p := t.drawProg(c)
	if !p.has(kMap) {
		p.start = &Expr{k: kMap, subs: []*Expr{p.start}}
		p.number()
	}
	b := p.build(false, true)
	text, pos := t.progText(p, c, t.size())
	m, _, _ := t.refRun(p, b, text, pos)
	if m.skip {
		t.Obs("skipped (left recursion or too long)")
		return
	}
	b.maxCalls = m.steps*8 + 1000
	t.Notef("at %d of %q", pos, text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	err := s.Use(b.start)
	// every successful read of a mapped part gives one token
	want := map[int][]tok.Token{}
	for _, cl := range b.calls {
		if cl.done && cl.err == nil {
			want[cl.e.id] = append(want[cl.e.id], tok.MakeToken(tok.Marker(cl.from), tok.Marker(cl.to)))
		}
	}
	if t.P(1, 2) {
		u := p.build(false, false)
		x := tok.NewScanner(text)
		x.ToMarker(tok.Marker(pos))
		x.Use(u.start)
		if len(u.events) != len(b.events) {
			t.Failf("%d tokens were reported, %d with probes between the readers of %q", len(u.events), len(b.events), text)
		}
		for i := range u.events {
			if u.events[i].id != b.events[i].id || u.events[i].t != b.events[i].t {
				t.Failf("report %d is %v, with probes between the readers it is %v of %q", i, u.events[i], b.events[i], text)
			}
		}
		t.Obs("mapped without probes")
	}
	got := map[int][]tok.Token{}
	for _, e := range b.events {
		got[e.id] = append(got[e.id], e.t)
	}
	for _, n := range p.nodes {
		if n.k != kMap {
			continue
		}
		w, g := want[n.subs[0].id], got[n.id]
		if len(w) != len(g) || !sameTokens(w, g) {
			t.Failf("%s: reported %v, but its part read %v of %q", n, g, w, text)
		}
		for _, tk := range g {
			f, z := tokRange(tk, text, s)
			if !m.calls[callKey{n.id, f, z}] {
				t.Failf("%s: reported %v, which it can not read from %q", n, tk, text)
			}
			if s.Get(tk) != text[f:z] {
				t.Failf("Get(%v) is %q instead of %q", tk, s.Get(tk), text[f:z])
			}
		}
		t.ObsN("mapped tokens", len(g))
	}
	if err == nil {
		i := 0
		for _, e := range b.events {
			f, z := tokRange(e.t, text, s)
			if i < len(m.maps) && m.maps[i] == (callKey{e.id, f, z}) {
				i++
			}
		}
		if i < len(m.maps) {
			t.Failf("token %v of the successful read of %q was not reported in order: got %v", m.maps[i], text, b.events)
		}
		if len(m.maps) > 0 {
			t.Distinct(p.String(), text, fmt.Sprint(pos))
			t.Sample("%s on %q: %v", clip(p.String(), 160), clip(text, 60), m.maps)
		}
		if p.has(kBody, kBodyTail) {
			t.Obs("mapped with body readers")
		}
	}
}

func sameTokens(a, b []tok.Token) bool {
	// nested reads of a recursive part complete in another order than they start
	cnt := map[tok.Token]int{}
	for _, x := range a {
		cnt[x]++
	}
	for _, x := range b {
		cnt[x]--
	}
	for _, v := range cnt {
		if v != 0 {
			return false
		}
	}
	return true
}

// tokRange finds the markers of a token through the exported API.
func tokRange(tk tok.Token, text string, s *tok.Scanner) (int, int) {
	str := tk.String() // "[from-to)"
	str = strings.TrimSuffix(strings.TrimPrefix(str, "["), ")")
	i := strings.LastIndex(str, "-")
	if i > 0 {
		f, e1 := strconv.Atoi(str[:i])
		z, e2 := strconv.Atoi(str[i+1:])
		if e1 == nil && e2 == nil && tok.MakeToken(tok.Marker(f), tok.Marker(z)) == tk {
			return f, z
		}
	}
	// other format: search
	for f := 0; f <= len(text); f++ {
		if tok.MakeToken(tok.Marker(f), tok.Marker(f+tk.Len())) == tk {
			return f, f + tk.Len()
		}
	}
	return -1, -1
}

func runCapture(t *T) {
	text := t.Text(40)
	pos := t.Position(text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	t.Notef("text %q", text)
	for i := 0; i < 5; i++ {
		a := int(s.Mark())
		ops := t.scriptOps(text, a)
		left := a
		script := func(s *tok.Scanner) {
			for _, o := range ops {
				o.run(s)
			}
			left = int(s.Mark())
		}
		r := &badReader{func(s *tok.Scanner) error { script(s); return nil }}
		str, isStr := "", true
		var tk tok.Token
		ok := true
		k := t.N(9)
		nm := []string{"Trace", "TraceUse", "TraceUseFunc", "Capture", "CaptureUse", "Tokenize", "TokenizeUse", "Since", "Get"}[k]
		t.Notef("%s at %d", nm, a)
		for _, o := range ops {
			t.Notef("   %s", o.name)
		}
		switch nm {
		case "Trace":
			str, ok = s.Trace(func() bool { script(s); return true })
		case "TraceUse":
			var e error
			str, e = s.TraceUse(r)
			ok = e == nil
		case "TraceUseFunc":
			var e error
			str, e = s.TraceUseFunc(func(s *tok.Scanner) error { script(s); return nil })
			ok = e == nil
		case "Capture":
			str, ok = s.Capture(func() bool { script(s); return true })
		case "CaptureUse":
			var e error
			str, e = s.CaptureUse(r)
			ok = e == nil
		case "Tokenize":
			tk, ok = s.Tokenize(func() bool { script(s); return true })
			isStr = false
		case "TokenizeUse":
			var e error
			tk, e = s.TokenizeUse(r)
			ok = e == nil
			isStr = false
		case "Since":
			script(s)
			str = s.Since(tok.Marker(a))
		default:
			script(s)
			x, y := t.In(0, len(text)), t.In(0, len(text))
			g := s.Get(tok.MakeToken(tok.Marker(x), tok.Marker(y)))
			if g != text[imin(x, y):imax(x, y)] {
				t.Failf("Get of the markers %d and %d of %q is %q", x, y, text, g)
			}
			str = s.Since(tok.Marker(a))
		}
		z := int(s.Mark())
		f, e := imin(a, z), imax(a, z)
		if !ok {
			t.Failf("%s failed", nm)
		}
		if z != left {
			t.Failf("%s ended at %d, its body at %d of %q", nm, z, left, text)
		}
		if isStr && str != text[f:e] {
			t.Failf("%s from %d to %d of %q is %q", nm, a, z, text, str)
		}
		if !isStr && (tk != tok.MakeToken(tok.Marker(a), tok.Marker(z)) || s.Get(tk) != text[f:e] || tk.Len() != e-f) {
			t.Failf("%s from %d to %d of %q is %v", nm, a, z, text, tk)
		}
		t.Obs(nm)
		if z < a {
			t.Obs("backwards")
		}
		if z != a {
			t.Distinct(text, nm, fmt.Sprint(a, z))
		}
	}
}

// captures of real readers, also of failing ones
func runCaptureUse(t *T) {
	c := &genCfg{values: true}
	p := t.drawProg(c)
	b := p.build(false, false)
	text, pos := t.progText(p, c, t.size())
	m, end, rerr := t.refRun(p, b, text, pos)
	if m.skip {
		t.Obs("skipped (left recursion or too long)")
		return
	}
	t.Notef("at %d of %q", pos, text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	var str string
	var err error
	switch t.N(4) {
	case 0:
		str, err = s.CaptureUse(b.start)
	case 1:
		str, err = s.TraceUse(b.start)
	case 2:
		str, err = s.TraceUseFunc(b.start.Read)
	default:
		var tk tok.Token
		tk, err = s.TokenizeUse(b.start)
		str = s.Get(tk)
	}
	if err == nil && str != text[pos:int(s.Mark())] {
		t.Failf("captured %q but read from %d to %d of %q", str, pos, s.Mark(), text)
	}
	if err == nil && rerr == nil && str != text[pos:end] {
		t.Failf("captured %q instead of %q", str, text[pos:end])
	}
	if rerr == nil && err == nil && int(s.Mark()) != end {
		t.Failf("captured %q and stands at %d instead of %d", str, s.Mark(), end)
	}
	if err == nil && end > pos {
		t.Obs("captured a reader")
		t.Distinct(p.String(), text)
	}
}

// --------------------------------------------------------------------------- C10

func segs(l []tok.Segment) string {
	a := []string{}
	for _, s := range l {
		a = append(a, s.String())
	}
	return strings.Join(a, ";")
}

type goneKey struct {
	info string
	pos  int
}

// judgeBasket compares the picked segments with the expected ones. Only the
// listed finding is tolerated: an empty segment of an abandoned branch.
func judgeBasket(t *T, b *tok.Basket, want []pickRec, gone map[goneKey]int, text string) {
	got := b.Picked()
	if b.String() != segs(got) {
		t.Failf("String %q does not show the picked segments %q", b.String(), segs(got))
	}
	i := 0
	used := map[goneKey]int{}
	for _, g := range got {
		if i < len(want) && g == (tok.Segment{Info: want[i].info, Token: tok.MakeToken(tok.Marker(want[i].from), tok.Marker(want[i].to))}) {
			i++
			continue
		}
		if g.Len() == 0 {
			f, _ := tokRange(g.Token, text, nil)
			k := goneKey{g.Info, f}
			if gone[k] > used[k] {
				used[k]++
				t.Known("empty-abandoned", g.String())
				continue
			}
		}
		t.Failf("the basket holds %q, expected %v on %q (%v is not expected)", segs(got), want, text, g)
	}
	if i < len(want) {
		t.Failf("the basket holds %q, expected %v on %q (%v is missing)", segs(got), want, text, want[i])
	}
}

func runC10(t *T) {
	c := &genCfg{values: true, observers: true}
	p := t.drawProg(c)
	if !p.has(kPick) {
		p.start = &Expr{k: kPick, subs: []*Expr{p.start}}
		p.number()
	}
	b := p.build(false, false)
	text, pos := t.progText(p, c, t.size())
	s := tok.NewScanner(text)
	s.Tracker = b.basket
	want := []pickRec{}
	gone := map[goneKey]int{}
	cur := 0
	move := func(m int) {
		t.Notef("move to %d", m)
		s.ToMarker(tok.Marker(m))
		keep := []pickRec{}
		for _, w := range want {
			if w.to <= m {
				keep = append(keep, w)
			}
		}
		want = keep
		cur = m
	}
	if pos > 0 {
		move(pos)
	}
	t.Notef("text %q", text)
	for i := t.In(1, 4); i > 0; i-- {
		m, end, err := t.refRun(p, b, text, cur)
		if m.skip {
			t.Obs("skipped (left recursion or too long)")
			return
		}
		t.Notef("use at %d", cur)
		got := s.Use(b.start)
		for _, g := range m.gone {
			if g.from == g.to {
				gone[goneKey{g.info, g.from}]++
			} else {
				t.Obs("abandoned picks")
			}
		}
		if (got == nil) != (err == nil) || (err == nil && int(s.Mark()) != end) {
			// another property decides whether the read itself is right
			t.Obs("read differs from the reference (no verdict)")
			return
		}
		if err == nil {
			want = append(want, m.picks...)
			t.Obs("use with success")
		} else {
			t.Obs("use with failure")
		}
		cur = int(s.Mark())
		judgeBasket(t, b.basket, want, gone, text)
		t.ObsN("picked segments", len(m.picks))
		if len(want) > 1 {
			t.Distinct(p.String(), text, fmt.Sprint(cur))
			t.Sample("%s on %q: %s", clip(p.String(), 160), clip(text, 60), clip(b.basket.String(), 100))
		}
		if t.P(1, 3) {
			move(t.In(0, len(text)))
			judgeBasket(t, b.basket, want, gone, text)
			t.Obs("moved by hand")
		}
	}
}

// ruleGrammar is a grammar with named rules around generated expressions.
type ruleGrammar struct {
	Start tok.Rule `name:"start"`
	A     tok.Rule `name:"a"`
	B     tok.Rule `name:"b"`
}

func (g *ruleGrammar) Read(s *tok.Scanner) error { return g.Start.Read(s) }
func (g *ruleGrammar) What() string              { return "rulegrammar" }
func (g *ruleGrammar) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

// the grammar way: NewBasketFor picks with the rule names
func runC10Rules(t *T) {
	c := &genCfg{values: true}
	c.alpha = t.drawAlpha()
	p := &Prog{start: t.expr(c, 3, 2)}
	p.rules = []*Expr{t.expr(c, 2, 2), t.expr(c, 2, 2)}
	p.number()
	b := p.build(false, false)
	g := &ruleGrammar{}
	if err := tok.SetRuleNames(g); err != nil {
		t.Failf("SetRuleNames: %v", err)
	}
	g.Start.Reader, g.A.Reader, g.B.Reader = b.start, b.rules[0].Reader, b.rules[1].Reader
	// let the references of the built readers go through the grammar's rules
	b.rules[0].Reader, b.rules[1].Reader = &g.A, &g.B
	text, pos := t.progText(p, c, t.size())
	// reference: the same program with picks around the rules
	q := &Prog{start: &Expr{k: kPick, subs: []*Expr{p.start}}}
	for _, r := range p.rules {
		q.rules = append(q.rules, &Expr{k: kPick, subs: []*Expr{r}})
	}
	q.number()
	qb := q.build(true, false)
	names := map[string]string{pickName(q.start): "start", pickName(q.rules[0]): "a", pickName(q.rules[1]): "b"}
	t.Notef("grammar %s", q)
	m, end, err := t.refRun(q, qb, text, pos)
	if m.skip {
		t.Obs("skipped (left recursion or too long)")
		return
	}
	t.Notef("at %d of %q", pos, text)
	if t.P(1, 4) { // baskets of earlier scanners
		for i := t.In(1, 2); i > 0; i-- {
			s := tok.NewScanner(text)
			s.ToMarker(tok.Marker(pos))
			s.NewBasketFor(g)
			if t.P(1, 2) {
				s.Use(g)
			}
			t.Notef("earlier basket")
		}
		t.Obs("several baskets")
	}
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	var bk *tok.Basket
	switch t.N(4) {
	case 0, 1:
		bk = s.NewBasketFor(g)
	case 2:
		bk = s.NewBasket()
		bk.PickWith(g.Grammar()...)
	default:
		bk = &tok.Basket{}
		s.Tracker = bk
		for _, r := range g.Grammar() {
			r.Pick(bk)
		}
	}
	if t.P(1, 6) { // one that is not coupled
		x := &tok.Basket{}
		if t.P(1, 2) {
			x.PickWith(g.Grammar()...)
		} else {
			g.Grammar()[t.N(3)].Pick(x)
		}
		t.Notef("another basket")
		t.Obs("several baskets")
	}
	got := s.Use(g)
	if (got == nil) != (err == nil) || (err == nil && int(s.Mark()) != end) {
		t.Obs("read differs from the reference (no verdict)")
		return
	}
	want := []pickRec{}
	gone := map[goneKey]int{}
	for _, x := range m.gone {
		if x.from == x.to {
			gone[goneKey{names[x.info], x.from}]++
		}
	}
	if err == nil {
		for _, x := range m.picks {
			want = append(want, pickRec{names[x.info], x.from, x.to})
		}
	}
	judgeBasket(t, bk, want, gone, text)
	t.Obs("rule grammar")
	t.ObsN("picked segments", len(want))
	if len(want) > 1 {
		t.Distinct("rules", q.String(), text)
	}
}

// --------------------------------------------------------------------------- C13

func judgeLog(t *T, log *tok.Log, entries []tok.LogEntry, calls []call, info map[int]string, text string, m *model) {
	// calls of the parts under a monitor, in the order of entering
	type want struct {
		c     call
		level int
	}
	ws := []want{}
	// depth: monitored calls that are open
	type fr struct{ idx, depth int }
	var depthOf func(i int) int
	par := make([]int, len(calls))
	for i := range par {
		par[i] = -1
	}
	for i, c := range calls {
		for _, j := range c.sub {
			par[j] = i
		}
	}
	memo := make([]int, len(calls))
	depthOf = func(i int) int {
		if i < 0 {
			return 0
		}
		if memo[i] != 0 {
			return memo[i] - 1
		}
		d := depthOf(par[i])
		if _, ok := info[calls[i].e.id]; ok {
			d++
		}
		memo[i] = d + 1
		return d
	}
	for i, c := range calls {
		if _, ok := info[c.e.id]; ok {
			ws = append(ws, want{c, depthOf(i)})
		}
	}
	if len(entries) != len(ws) {
		t.Failf("the log has %d entries, %d monitored reads were made on %q", len(entries), len(ws), text)
	}
	for i, e := range entries {
		w := ws[i]
		if e.Info != info[w.c.e.id] || e.EnterAt != w.c.from || e.ExitAt != w.c.to || e.Level != w.level {
			t.Failf("entry %d is %s level %d, %d to %d; the read was %s level %d, %d to %d on %q", i, e.Info, e.Level, e.EnterAt, e.ExitAt, info[w.c.e.id], w.level, w.c.from, w.c.to, text)
		}
		if fmt.Sprint(e.Error) != fmt.Sprint(w.c.err) || (e.Error == nil) != (w.c.err == nil) {
			t.Failf("entry %d (%s at %d) has error %v, the read returned %v on %q", i, e.Info, e.EnterAt, e.Error, w.c.err, text)
		}
		if m != nil {
			to := e.ExitAt
			if e.Error != nil {
				to = -1
			}
			if !m.calls[callKey{w.c.e.id, e.EnterAt, to}] {
				t.Failf("entry %d (%s %d to %d, error %v) is no read the text %q allows", i, e.Info, e.EnterAt, e.ExitAt, e.Error, text)
			}
		}
		if e.Error != nil {
			t.Obs("log entries with error")
		}
		if e.Level > 2 {
			t.Obs("log entries below level 2")
		}
	}
	t.ObsN("log entries", len(entries))
}

func runC13(t *T) {
	c := &genCfg{values: true, observers: true}
	p := t.drawProg(c)
	for !p.has(kMonitor) || t.P(1, 3) {
		p.start = &Expr{k: kMonitor, subs: []*Expr{p.start}}
		p.number()
	}
	b := p.build(false, true)
	info := map[int]string{}
	for _, n := range p.nodes {
		if n.k == kMonitor {
			info[n.subs[0].id] = monName(n)
		}
	}
	done := 0 // entries of earlier reads since the last reset
	for i := t.In(1, 4); i > 0; i-- {
		text, pos := t.progText(p, c, t.size())
		m, _, _ := t.refRun(p, b, text, pos)
		if m.skip {
			t.Obs("skipped (left recursion or too long)")
			continue
		}
		b.maxCalls = m.steps*8 + 1000
		b.resetObs()
		t.Notef("at %d of %q", pos, text)
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(pos))
		before := append([]tok.LogEntry{}, b.log.Entries[:done]...)
		s.Use(b.start)
		if len(b.log.Entries) < done {
			t.Failf("the log lost entries: %d of %d", len(b.log.Entries), done)
		}
		for j := range before {
			if fmt.Sprint(before[j], before[j].ExitAt, before[j].Error) != fmt.Sprint(b.log.Entries[j], b.log.Entries[j].ExitAt, b.log.Entries[j].Error) {
				t.Failf("entry %d of an earlier read was changed", j)
			}
		}
		judgeLog(t, b.log, b.log.Entries[done:], b.calls, info, text, m)
		if len(b.log.Entries)-done > 2 {
			t.Distinct(p.String(), text)
			t.Sample("%s on %q: %d entries", clip(p.String(), 160), clip(text, 60), len(b.log.Entries)-done)
		}
		if t.P(1, 3) { // the same without probes
			u := p.build(false, false)
			x := tok.NewScanner(text)
			x.ToMarker(tok.Marker(pos))
			x.Use(u.start)
			if len(u.log.Entries) != len(b.log.Entries)-done {
				t.Failf("the log has %d entries, %d with probes between the readers of %q", len(u.log.Entries), len(b.log.Entries)-done, text)
			}
			for j, e := range u.log.Entries {
				w := b.log.Entries[done+j]
				if e.Info != w.Info || e.EnterAt != w.EnterAt || e.ExitAt != w.ExitAt || e.Level != w.Level || fmt.Sprint(e.Error) != fmt.Sprint(w.Error) {
					t.Failf("entry %d is %v to %d (%v), with probes between the readers it is %v to %d (%v) on %q", j, e, e.ExitAt, e.Error, w, w.ExitAt, w.Error, text)
				}
			}
			t.Obs("log without probes")
		}
		if t.P(1, 12) {
			n := t.In(0, 12)
			judgePreview(t, b.log, text, n, done)
			if t.P(1, 4) {
				judgePreview(t, b.log, text[:t.Position(text)], n, done)
			}
		}
		done = len(b.log.Entries)
		if t.P(1, 3) {
			b.log.Reset()
			done = 0
			if len(b.log.Entries) != 0 {
				t.Failf("%d entries after Reset", len(b.log.Entries))
			}
			t.Obs("reset")
		}
	}
}

var stdoutMu sync.Mutex

func captureStdout(f func()) string {
	stdoutMu.Lock()
	defer stdoutMu.Unlock()
	old := os.Stdout
	tmp, err := os.CreateTemp("", "vharness")
	if err != nil {
		panic(err)
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	os.Stdout = tmp
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	data, err := os.ReadFile(tmp.Name())
	if err != nil {
		panic(err)
	}
	return string(data)
}

func judgePreview(t *T, log *tok.Log, text string, n int, from int) {
	sub := &tok.Log{Entries: log.Entries[from:]}
	plain := strings.Split(captureStdout(func() { sub.Print() }), "\n")
	if len(plain) != len(sub.Entries)+1 {
		t.Failf("%d lines printed for %d entries", len(plain)-1, len(sub.Entries))
	}
	for i, e := range sub.Entries {
		if miss, ok := inOrder(plain[i], []string{strconv.Itoa(e.Level), strconv.Itoa(e.EnterAt), e.Info}); !ok || strings.Contains(plain[i], "%!") {
			t.Failf("line %q for the entry %s at %d on level %d (%q)", plain[i], e.Info, e.EnterAt, e.Level, miss)
		}
	}
	out := captureStdout(func() { sub.PrintWithPreview(text, n) })
	lines := strings.Split(out, "\n")
	if len(lines) != len(sub.Entries)+1 {
		t.Failf("%d lines printed for %d entries", len(lines)-1, len(sub.Entries))
	}
	for i, e := range sub.Entries {
		p := e.EnterAt
		if p > len(text) {
			if !strings.HasSuffix(lines[i], strconv.Quote("")) || !strings.Contains(lines[i], e.Info) {
				t.Failf("line %q for the entry %s at %d behind the text %q", lines[i], e.Info, e.EnterAt, text)
			}
			t.Obs("preview behind the text")
			continue
		}
		for k := 0; k < n; k++ {
			_, w := decFwd(text[p:])
			p += w
		}
		prev := strconv.Quote(text[e.EnterAt:p])
		if !strings.HasSuffix(lines[i], prev) || !strings.Contains(lines[i], e.Info) {
			t.Failf("line %q for the entry %s at %d of %q, expected the preview %s", lines[i], e.Info, e.EnterAt, text, prev)
		}
		if p > e.EnterAt {
			t.Obs("preview shown")
		}
	}
}

// --------------------------------------------------------------------------- C14

func judgeErr(t *T, err error, want *rerr, text string, pos int) {
	if want.other {
		if _, ok := err.(tok.ReadError); ok {
			t.Failf("read error %v on %q, expected the error of the invalid reader", err, text)
		}
		if inv := tok.InvalidReader("inv").Read(tok.NewScanner("")); err.Error() != inv.Error() {
			t.Failf("error %q, expected the error of the invalid reader %q", err, inv)
		}
		t.Obs("error of an invalid reader")
		return
	}
	re, ok := err.(tok.ReadError)
	if !ok {
		t.Failf("error %T %v on %q is no read error", err, err, text)
	}
	if int(re.Marker) < pos || int(re.Marker) > len(text) {
		t.Failf("error %v at %d lies outside of the read that started at %d of %q", err, re.Marker, pos, text)
	}
	if !strings.Contains(err.Error(), re.What) || !strings.Contains(strings.Replace(err.Error(), re.What, "", 1), strconv.Itoa(int(re.Marker))) ||
		strings.Contains(strings.Replace(err.Error(), re.What, "", 1), "%!") {
		t.Failf("the error text %q does not show the description %q and the position %d", err, re.What, re.Marker)
	}
	if int(re.Marker) != want.pos {
		t.Failf("error %v at %d, expected at %d for %q on %q", err, re.Marker, want.pos, want.whats, text)
	}
	for _, w := range want.whats {
		if re.What == w {
			if want.pos > pos {
				t.Obs("error behind the start")
			} else {
				t.Obs("error at the start")
			}
			return
		}
	}
	t.Failf("error names %q at %d, expected %q on %q", re.What, re.Marker, want.whats, text)
}

// the grammars pass the error of their first rule on
func runC14Grammar(t *T) {
	var g tok.Grammar
	var start *tok.Rule
	text := ""
	switch t.N(3) {
	case 0:
		text = t.jsonMutate(t.jsonText(t.In(1, 12)))
		j := grammar.JSON()
		g, start = j, &j.Element
	case 1:
		text = t.mxtMutant()
		m := grammar.MXT()
		g, start = m, &m.Chunks
	default:
		for i := t.Size(6); i >= 0; i-- {
			text += t.Str([]string{"'", "x=", "f(", "end", "if", "\n", "--", "]]", "\xff"})
		}
		l := grammar.Lua()
		g, start = l, &l.Chunk
	}
	t.Notef("text %q", text)
	sub := start.Read(tok.NewScanner(text))
	s := tok.NewScanner(text)
	err := s.Use(g)
	if (sub == nil) != (err == nil) {
		t.Failf("%s gives %v, its first rule %v on %q", g.What(), err, sub, text)
	}
	if err == nil {
		return
	}
	re, ok := sub.(tok.ReadError)
	if !ok {
		t.Failf("error %T %v on %q is no read error", sub, sub, text)
	}
	if int(re.Marker) < 0 || int(re.Marker) > len(text) {
		t.Failf("error %v outside of %q", re, text)
	}
	rest := strings.Replace(err.Error(), re.What, "", 1)
	if !strings.Contains(err.Error(), re.What) || !strings.Contains(rest, strconv.Itoa(int(re.Marker))) {
		t.Failf("the error %q of %s does not show %q and %d on %q", err, g.What(), re.What, re.Marker, text)
	}
	t.Obs("error of a grammar")
	t.Distinct(g.What(), text)
}

func runC14(t *T) {
	c := &genCfg{values: true, invalid: t.P(1, 4), observers: t.P(1, 5)}
	p := t.drawProg(c)
	b := p.build(false, false)
	for i := 0; i < 4; i++ {
		text, pos := t.progText(p, c, t.size())
		m, _, want := t.refRun(p, b, text, pos)
		if m.skip {
			t.Obs("skipped (left recursion or too long)")
			continue
		}
		t.Notef("at %d of %q", pos, text)
		s := tok.NewScanner(text)
		s.ToMarker(tok.Marker(pos))
		var err error
		if t.P(1, 2) {
			err = s.Use(b.start)
		} else {
			err = b.start.Read(s)
		}
		if (err == nil) != (want == nil) {
			t.Obs("read differs from the reference (no verdict)")
			continue
		}
		if err == nil {
			continue
		}
		judgeErr(t, err, want, text, pos)
		m.note(t, want)
		if re, ok := err.(tok.ReadError); ok && re.What != "" && !strings.Contains(err.Error(), re.What) {
			t.Failf("the message %q does not name %q", err, re.What)
		}
		t.Distinct(p.String(), text, fmt.Sprint(pos))
		t.Sample("%s at %d of %q: %v", clip(p.String(), 160), pos, clip(text, 60), err)
	}
}

// --------------------------------------------------------------------------- C19

// lastTracker knows the last position it was told.
type lastTracker struct {
	last  int
	n     int
	bad   string
	limit int
}

func (l *lastTracker) Update(m tok.Marker) {
	l.last = int(m)
	l.n++
	if l.last < 0 || l.last > l.limit {
		l.bad = fmt.Sprintf("told position %d outside of the text of %d bytes", l.last, l.limit)
	}
}

func errKey(err error, what bool) string {
	if err == nil {
		return "ok"
	}
	if re, ok := err.(tok.ReadError); ok {
		if what {
			return fmt.Sprintf("read error %d %s", re.Marker, re.What)
		}
		return fmt.Sprintf("read error %d", re.Marker)
	}
	return "error " + err.Error()
}

// dress inserts observers at random places.
func (t *T) dress(e *Expr, p *Prog, names bool) *Expr {
	n := *e
	n.subs = nil
	for _, s := range e.subs {
		n.subs = append(n.subs, t.dress(s, p, names))
	}
	res := &n
	for t.P(1, 3) {
		switch t.N(5) {
		case 0:
			res = &Expr{k: kMap, subs: []*Expr{res}}
		case 1:
			res = &Expr{k: kPick, subs: []*Expr{res}}
		case 2:
			res = &Expr{k: kMonitor, subs: []*Expr{res}}
		case 3:
			if names {
				res = &Expr{k: kNamed, s: "nm", subs: []*Expr{res}}
			}
		default:
			if names {
				p.rules = append(p.rules, res)
				res = &Expr{k: kRef, n: len(p.rules) - 1}
			}
		}
	}
	return res
}

func runC19(t *T) {
	c := &genCfg{values: true, invalid: t.P(1, 10)}
	p := t.drawProg(c)
	names := t.P(1, 2)
	q := &Prog{}
	q.rules = make([]*Expr, len(p.rules))
	for i, r := range p.rules {
		q.rules[i] = t.dress(r, q, names)
	}
	q.start = t.dress(p.start, q, names)
	q.number()
	t.Notef("observed %s", q)
	pb := p.build(true, false)
	qb := q.build(false, false)
	for i := 0; i < 3; i++ {
		text, pos := t.progText(p, c, t.size())
		m, _, _ := t.refRun(p, pb, text, pos)
		if m.skip {
			t.Obs("skipped (left recursion or too long)")
			continue
		}
		t.Notef("at %d of %q", pos, text)
		s1 := tok.NewScanner(text)
		s1.ToMarker(tok.Marker(pos))
		e1 := s1.Use(pb.start)
		s2 := tok.NewScanner(text)
		s2.ToMarker(tok.Marker(pos))
		tr := &lastTracker{limit: len(text), last: pos}
		mode := t.N(3)
		switch mode {
		case 0:
			s2.Tracker = tr
		case 1:
			s2.Tracker = qb.basket
		}
		e2 := s2.Use(qb.start)
		if errKey(e1, !names) != errKey(e2, !names) || s1.Mark() != s2.Mark() {
			t.Failf("alone: %s at %d, observed: %s at %d, on %q from %d", errKey(e1, true), s1.Mark(), errKey(e2, true), s2.Mark(), text, pos)
		}
		if mode == 0 {
			if tr.bad != "" {
				t.Failf("%s on %q", tr.bad, text)
			}
			if tr.last != int(s2.Mark()) {
				t.Failf("the tracker was told %d last, the scanner stands at %d of %q", tr.last, s2.Mark(), text)
			}
			t.ObsN("tracker updates", tr.n)
		}
		if e1 == nil {
			t.Obs("same success")
		} else {
			t.Obs("same failure")
		}
		if len(q.nodes) > len(p.nodes) && m.steps > 3 {
			t.Distinct(q.String(), text)
			t.Sample("%s observed as %s on %q", clip(p.String(), 120), clip(q.String(), 200), clip(text, 60))
		}
	}
}

// boundProbe checks at the boundary of every read that the tracker knows the position.
type boundProbe struct {
	sub tok.Reader
	tr  *lastTracker
	bad *string
	n   *int
}

func (p *boundProbe) check(s *tok.Scanner, when string) {
	*p.n++
	if p.tr.last != int(s.Mark()) && *p.bad == "" {
		*p.bad = fmt.Sprintf("%s a read of %s the tracker knows %d, the scanner stands at %d", when, clip(p.sub.What(), 100), p.tr.last, s.Mark())
	}
}

func (p *boundProbe) Read(s *tok.Scanner) error {
	p.check(s, "before")
	err := p.sub.Read(s)
	p.check(s, "after")
	return err
}
func (p *boundProbe) What() string { return p.sub.What() }

func runC19Track(t *T) {
	c := &genCfg{values: true, observers: true}
	p := t.drawProg(c)
	text, pos := t.progText(p, c, t.size())
	b := p.build(false, true)
	m, _, _ := t.refRun(p, b, text, pos)
	if m.skip {
		t.Obs("skipped (left recursion or too long)")
		return
	}
	b.maxCalls = m.steps*8 + 1000
	tr := &lastTracker{limit: len(text), last: pos}
	bad, n := "", 0
	for _, r := range b.nodes { // put a boundary check into every probe
		if pr, ok := r.(*probe); ok {
			pr.sub = &boundProbe{pr.sub, tr, &bad, &n}
		}
	}
	t.Notef("at %d of %q", pos, text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	s.Tracker = tr
	s.Use(b.start)
	if bad != "" {
		t.Failf("%s of %q", bad, text)
	}
	if tr.bad != "" {
		t.Failf("%s on %q", tr.bad, text)
	}
	if tr.last != int(s.Mark()) {
		t.Failf("the tracker was told %d last, the scanner stands at %d of %q", tr.last, s.Mark(), text)
	}
	u := p.build(false, false)
	tr = &lastTracker{limit: len(text), last: pos}
	s = tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	s.Tracker = tr
	s.Use(u.start)
	if tr.bad != "" || tr.last != int(s.Mark()) {
		t.Failf("the tracker was told %d last, the scanner stands at %d of %q %s", tr.last, s.Mark(), text, tr.bad)
	}
	t.ObsN("read boundaries watched", n)
	t.ObsN("tracker updates", tr.n)
	if n > 6 {
		t.Distinct(p.String(), text)
	}
}

// tracker and scanner calls
func runC19Ops(t *T) {
	text := t.Text(40)
	s := tok.NewScanner(text)
	o := tok.NewScanner(text)
	tr := &lastTracker{limit: len(text)}
	s.Tracker = tr
	t.Notef("text %q", text)
	for i := t.In(1, 20); i > 0; i-- {
		pos := int(s.Mark())
		var op op
		switch t.N(4) {
		case 0:
			op = t.moveOp(text, pos)
		case 1:
			op = t.fwdOp(text, pos)
		case 2:
			op = t.revOp(text, pos)
		default:
			op = t.otherOp(text, pos)
			if strings.ContainsAny(op.name, " ") && !strings.HasPrefix(op.name, "Read") {
				// scope calls capture their scanner through the argument
			}
		}
		t.Notef("at %d: %s", pos, op.name)
		r1 := op.run(s)
		r2 := op.run(o)
		if r1 != r2 || s.Mark() != o.Mark() {
			t.Failf("%s with a tracker: %v at %d, without: %v at %d", op.name, r1, s.Mark(), r2, o.Mark())
		}
		if tr.bad != "" {
			t.Failf("%s after %s", tr.bad, op.name)
		}
		if tr.last != int(s.Mark()) {
			t.Failf("after %s the tracker knows %d, the scanner stands at %d of %q", op.name, tr.last, s.Mark(), text)
		}
		if int(s.Mark()) != pos {
			t.Obs("tracked moves")
			t.Distinct(text, opName(op.name), fmt.Sprint(pos))
		}
	}
}

// the building blocks of errors
func runC14Parts(t *T) {
	text := t.Text(t.tail(20, 2000))
	pos := t.Position(text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	name := t.Text(4)
	want := tok.ReadError{Marker: tok.Marker(pos), What: name}
	if e, ok := s.ErrorFor(name).(tok.ReadError); !ok || e != want {
		t.Failf("ErrorFor(%q) at %d is %v", name, pos, s.ErrorFor(name))
	}
	if e, ok := s.ErrorIfFalse(false, name).(tok.ReadError); !ok || e != want {
		t.Failf("ErrorIfFalse(false, %q) at %d is %v", name, pos, s.ErrorIfFalse(false, name))
	}
	if e := s.ErrorIfFalse(true, name); e != nil {
		t.Failf("ErrorIfFalse(true, %q) is %v", name, e)
	}
	if int(s.Mark()) != pos {
		t.Failf("making an error moved the scanner from %d to %d", pos, s.Mark())
	}
	if str := want.Error(); !strings.Contains(str, name) || !strings.Contains(str, strconv.Itoa(pos)) {
		t.Failf("the error %q names %q at %d", str, name, pos)
	}
	a, b := t.drawMark(), t.drawMark()
	if t.P(1, 2) {
		b = a + t.In(-3, 3)
	}
	x, y := tok.ReadError{Marker: tok.Marker(a), What: name}, tok.ReadError{Marker: tok.Marker(b), What: t.Text(2)}
	if a != b && x.Later(y) != (a > b) {
		t.Failf("Later of errors at %d and %d is %v", a, b, x.Later(y))
	}
	t.Obs("error made by hand")
	t.Distinct(text, fmt.Sprint(pos, a, b))
}

func init() {
	assume := []string{"the reference semantics in harness/expr.go state the intended meaning of the readers", "left-recursive and exponential programs are left out (counted as skipped)"}
	rule := "random reader programs (up to 3 recursive rules, depth up to 6, all reader constructors) and texts sampled from them, mutated and truncated, with random start positions; "
	register(&Prop{ID: "C05", Rule: rule + "non-trivial: more than 4 reference steps and a read of at least one byte or a failure, distinct by program, text and position",
		Floors: allKindFloors(kInvalid), Assume: assume,
		Suites: []Suite{{"programs", 150000, 6000000, runC05}, {"read within a read", 30000, 1200000, runReenter}, {"giants", 800, 30000, giant(runC05)}}})
	register(&Prop{ID: "C04", Rule: rule + "a probe around every reader records position before and after; non-trivial: at least one read failed, distinct by program, text and position",
		Floors: []string{"giant case", "reads watched", "failed after a part was read", "failed Seq", "failed Any", "failed SkipSeq", "failed Times", "failed Many", "failed Not", "failed At", "failed To", "failed Past", "failed Body", "failed BodyTail", "failed Int", "failed Bool", "failed Wrap", "failed Map", "failed Pick", "failed Monitor",
			"Scope undone", "Trace undone", "Use undone", "UseFunc undone", "TraceUse undone", "TraceUseFunc undone", "Tokenize undone", "TokenizeUse undone", "Capture undone", "CaptureUse undone", "Wrap undone", "nested undone", "Scope kept", "Trace kept", "Use kept", "UseFunc kept", "TraceUse kept", "TraceUseFunc kept", "Tokenize kept", "TokenizeUse kept", "Capture kept", "CaptureUse kept", "Wrap kept", "nested kept", "failed value read or scope", "failed with an error of its own", "foreign readers failed"}, Assume: assume,
		Suites: []Suite{{"probed programs", 250000, 8000000, runC04}, {"scopes", 60000, 2000000, runScopes}, {"value reads", 60000, 2000000, runValueFail}, {"foreign readers", 100000, 3000000, runC04Foreign}, {"giants", 800, 30000, giant(runC04)}}})
	register(&Prop{ID: "C08", Rule: rule + "and scanner call scripts inside capture calls; non-trivial: at least one token is mapped or a non-empty range captured, distinct by program or call and text",
		Floors: []string{"giant case", "mapped tokens", "mapped with body readers", "Trace", "TraceUse", "TraceUseFunc", "Capture", "CaptureUse", "Tokenize", "TokenizeUse", "Since", "Get", "backwards", "stacked map", "captured a reader"}, Assume: assume,
		Suites: []Suite{{"mapped programs", 200000, 6000000, runC08}, {"captures", 60000, 2000000, runCapture}, {"stacked", 20000, 800000, runStacked}, {"reader captures", 60000, 2000000, runCaptureUse}, {"giants", 800, 30000, giant(runC08)}}})
	register(&Prop{ID: "C10", Rule: rule + "picks at random depth and rule grammars with NewBasketFor, several uses and moves by hand; non-trivial: at least two expected segments, distinct by program, text and position",
		Floors: []string{"giant case", "giant basket", "picked segments", "abandoned picks", "use with success", "use with failure", "moved by hand", "rule grammar", "several baskets"}, Assume: assume,
		Suites: []Suite{{"witness", 1, 1, runC10Witness}, {"picked programs", 250000, 8000000, runC10}, {"rule grammars", 100000, 3000000, runC10Rules}, {"giants", 800, 30000, giant(runC10)}, {"many picks", 60, 3000, runC10Giant}}})
	register(&Prop{ID: "C14", Rule: rule + "only failing reads are judged; distinct by program, text and position",
		Floors: []string{"giant case", "error behind the start", "error at the start", "error of an invalid reader", "fail Any", "fail Seq", "fail SkipSeq", "fail Times", "fail At", "fail Many", "fail To", "fail Past", "fail Body", "fail BodyTail", "fail Not", "error of a grammar", "error made by hand"}, Assume: assume,
		Suites: []Suite{{"programs", 150000, 6000000, runC14}, {"grammars", 3000, 60000, runC14Grammar}, {"by hand", 30000, 500000, runC14Parts}, {"giants", 800, 30000, giant(runC14)}}})
	register(&Prop{ID: "C19", Rule: rule + "each program is also read with observers (map, pick, monitor, name, rule) inserted at random places and with a tracker; scanner call sequences with and without tracker; compositions of scripted foreign readers; non-trivial: the observed program has observers and more than 3 steps, or the call moved, distinct by program and text",
		Floors: []string{"giant case", "same success", "same failure", "tracker updates", "tracked moves", "read boundaries watched", "foreign readers observed", "foreign error"}, Assume: assume,
		Suites: []Suite{{"observed programs", 120000, 4000000, runC19}, {"read boundaries", 100000, 4000000, runC19Track}, {"scanner calls", 60000, 2000000, runC19Ops}, {"foreign readers", 60000, 2000000, runC19Foreign}, {"giants", 800, 30000, giant(runC19)}, {"giant read boundaries", 400, 20000, giant(runC19Track)}}})
}

// the listed finding, pinned: JSON "[]" leaves a picked "ws" of the abandoned elements
func runC10Witness(t *T) {
	b := &tok.Basket{}
	r := tok.Any(tok.Seq(tok.Pick(tok.Zom(tok.WS()), b, "ws"), "x"), "]")
	s := tok.NewScanner("]")
	s.Tracker = b
	if err := s.Use(r); err != nil {
		t.Failf("%v", err)
	}
	judgeBasket(t, b, nil, map[goneKey]int{{"ws", 0}: 1}, "]")
}
