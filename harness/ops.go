package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
)

// One scanner call with the reference result. model returns the position the
// call has to leave behind and the value it has to return.
type op struct {
	name  string
	run   func(s *tok.Scanner) bool
	model func(text string, pos int) (int, bool)
}

func hasRune(l []rune, r rune) bool {
	for _, x := range l {
		if x == r {
			return true
		}
	}
	return false
}

type pred struct {
	name string
	f    func(rune) bool
}

// rune predicate shapes shared by the rune, any rune, between and match calls
func fwdIf(f func(rune) bool) func(string, int) (int, bool) {
	return func(text string, pos int) (int, bool) {
		r, w := decFwd(text[pos:])
		if w > 0 && f(r) {
			return pos + w, true
		}
		return pos, false
	}
}

func fwdTo(f func(rune) bool) func(string, int) (int, bool) {
	return func(text string, pos int) (int, bool) {
		for p := pos; p < len(text); {
			r, w := decFwd(text[p:])
			if f(r) {
				return p, true
			}
			p += w
		}
		return pos, false
	}
}

func fwdWhile(f func(rune) bool) func(string, int) (int, bool) {
	return func(text string, pos int) (int, bool) {
		p := pos
		for p < len(text) {
			r, w := decFwd(text[p:])
			if !f(r) {
				break
			}
			p += w
		}
		return p, p != pos
	}
}

func revIf(f func(rune) bool) func(string, int) (int, bool) {
	return func(text string, pos int) (int, bool) {
		r, w := decBack(text[:pos])
		if w > 0 && f(r) {
			return pos - w, true
		}
		return pos, false
	}
}

func revTo(f func(rune) bool) func(string, int) (int, bool) {
	return func(text string, pos int) (int, bool) {
		for p := pos; p > 0; {
			r, w := decBack(text[:p])
			if f(r) {
				return p, true
			}
			p -= w
		}
		return pos, false
	}
}

func revWhile(f func(rune) bool) func(string, int) (int, bool) {
	return func(text string, pos int) (int, bool) {
		p := pos
		for p > 0 {
			r, w := decBack(text[:p])
			if !f(r) {
				break
			}
			p -= w
		}
		return p, p != pos
	}
}

// wideTab draws a large tab width.
func (t *T) wideTab() int { return 1<<uint(t.In(7, 40)) + t.In(-2, 2) }

// drawSet draws a rune set as string.
func (t *T) drawSet(text string, pos int) string {
	var b strings.Builder
	n := t.Size(60)
	if t.P(1, 60) {
		n = t.big(1500)
	}
	for i := n; i >= 0; i-- {
		if t.P(1, 25) {
			b.WriteString("\xff")
			continue
		}
		b.WriteRune(t.RuneNear(text, pos))
	}
	switch t.N(24) {
	case 0, 1:
		return ""
	case 2: // looks like a range
		x, y := t.RuneNear(text, pos), t.RuneNear(text, pos)
		if x > y {
			x, y = y, x
		}
		return string(x) + "-" + string(y)
	case 3:
		return "^" + b.String()
	}
	return b.String()
}

func (t *T) drawRange(text string, pos int) (rune, rune) {
	a := t.RuneNear(text, pos)
	b := a
	switch t.N(4) {
	case 0:
		b = t.RuneNear(text, pos)
	case 1:
		b = a + rune(t.N(40))
	case 2:
		a = a - rune(t.N(40))
	}
	if a > b && t.P(5, 6) {
		a, b = b, a
	}
	return a, b
}

func (t *T) drawPred(text string, pos int) pred {
	switch t.N(5) {
	case 0:
		l := runesOf(t.drawSet(text, pos))
		return pred{fmt.Sprintf("in %q", string(l)), func(r rune) bool { return hasRune(l, r) }}
	case 1:
		l := runesOf(t.drawSet(text, pos))
		return pred{fmt.Sprintf("not in %q", string(l)), func(r rune) bool { return !hasRune(l, r) }}
	case 2:
		k := rune(t.In(2, 5))
		return pred{fmt.Sprintf("mod %d", k), func(r rune) bool { return r%k != 0 }}
	case 3:
		return pred{"all", func(r rune) bool { return true }}
	default:
		a, b := t.drawRange(text, pos)
		return pred{fmt.Sprintf("between %U %U", a, b), func(r rune) bool { return a <= r && r <= b }}
	}
}

func (t *T) drawStrs(text string, pos int) []string {
	strs := []string{}
	n := t.few(4, 12)
	if t.P(1, 60) {
		n = t.big(300)
	}
	for i := n; i > 0; i-- {
		p := t.Pattern(text, pos)
		if len(strs) > 0 && t.P(1, 5) { // a prefix or suffix of another one, or more of it
			p = strs[t.N(len(strs))]
			if t.P(1, 2) {
				p = p[t.In(0, len(p)):]
			} else {
				p = p[:t.In(0, len(p))]
			}
		}
		at := t.In(0, len(strs))
		strs = append(strs[:at], append([]string{p}, strs[at:]...)...)
	}
	return strs
}

func firstPrefix(strs []string, s string) (string, bool) {
	for _, x := range strs {
		if len(x) <= len(s) && s[:len(x)] == x {
			return x, true
		}
	}
	return "", false
}

func firstSuffix(strs []string, s string) (string, bool) {
	for _, x := range strs {
		if len(x) <= len(s) && s[len(s)-len(x):] == x {
			return x, true
		}
	}
	return "", false
}

const numFwd = 20

// fwdOp draws a forward call with its model.
func (t *T) fwdOp(text string, pos int) op {
	switch t.N(numFwd) {
	case 0:
		p := t.Pattern(text, pos)
		return op{fmt.Sprintf("If(%q)", p), func(s *tok.Scanner) bool { return s.If(p) },
			func(text string, pos int) (int, bool) {
				if _, ok := firstPrefix([]string{p}, text[pos:]); ok {
					return pos + len(p), true
				}
				return pos, false
			}}
	case 1:
		l := t.drawStrs(text, pos)
		return op{fmt.Sprintf("IfAny(%q)", l), func(s *tok.Scanner) bool { return s.IfAny(append([]string{}, l...)...) },
			func(text string, pos int) (int, bool) {
				p, ok := firstPrefix(l, text[pos:])
				return pos + len(p), ok
			}}
	case 2:
		p := t.Pattern(text, pos)
		return op{fmt.Sprintf("To(%q)", p), func(s *tok.Scanner) bool { return s.To(p) },
			func(text string, pos int) (int, bool) {
				for i := pos; i+len(p) <= len(text); i++ {
					if text[i:i+len(p)] == p {
						return i, true
					}
				}
				return pos, false
			}}
	case 3:
		p := validPattern(t.Pattern(text, pos))
		return op{fmt.Sprintf("IfFold(%q)", p), func(s *tok.Scanner) bool { return s.IfFold(p) },
			func(text string, pos int) (int, bool) {
				n := foldPrefixLen(text[pos:], p)
				if n < 0 {
					return pos, false
				}
				return pos + n, true
			}}
	case 4:
		p := validPattern(t.Pattern(text, pos))
		return op{fmt.Sprintf("ToFold(%q)", p), func(s *tok.Scanner) bool { return s.ToFold(p) },
			func(text string, pos int) (int, bool) {
				for i := pos; ; {
					if foldPrefixLen(text[i:], p) >= 0 {
						return i, true
					}
					_, w := decFwd(text[i:])
					if w == 0 {
						return pos, false
					}
					i += w
				}
			}}
	case 5, 6, 7:
		r := t.RuneNear(text, pos)
		f := func(x rune) bool { return x == r }
		switch t.N(3) {
		case 0:
			return op{fmt.Sprintf("IfRune(%U)", r), func(s *tok.Scanner) bool { return s.IfRune(r) }, fwdIf(f)}
		case 1:
			return op{fmt.Sprintf("ToRune(%U)", r), func(s *tok.Scanner) bool { return s.ToRune(r) }, fwdTo(f)}
		default:
			return op{fmt.Sprintf("WhileRune(%U)", r), func(s *tok.Scanner) bool { return s.WhileRune(r) }, fwdWhile(f)}
		}
	case 8, 9, 10:
		set := t.drawSet(text, pos)
		l := runesOf(set)
		f := func(x rune) bool { return hasRune(l, x) }
		switch t.N(3) {
		case 0:
			return op{fmt.Sprintf("IfAnyRune(%q)", set), func(s *tok.Scanner) bool { return s.IfAnyRune(set) }, fwdIf(f)}
		case 1:
			return op{fmt.Sprintf("ToAnyRune(%q)", set), func(s *tok.Scanner) bool { return s.ToAnyRune(set) }, fwdTo(f)}
		default:
			return op{fmt.Sprintf("WhileAnyRune(%q)", set), func(s *tok.Scanner) bool { return s.WhileAnyRune(set) }, fwdWhile(f)}
		}
	case 11, 12, 13:
		a, b := t.drawRange(text, pos)
		f := func(x rune) bool { return a <= x && x <= b }
		switch t.N(3) {
		case 0:
			return op{fmt.Sprintf("IfBetween(%U,%U)", a, b), func(s *tok.Scanner) bool { return s.IfBetween(a, b) }, fwdIf(f)}
		case 1:
			return op{fmt.Sprintf("ToBetween(%U,%U)", a, b), func(s *tok.Scanner) bool { return s.ToBetween(a, b) }, fwdTo(f)}
		default:
			return op{fmt.Sprintf("WhileBetween(%U,%U)", a, b), func(s *tok.Scanner) bool { return s.WhileBetween(a, b) }, fwdWhile(f)}
		}
	case 14, 15, 16:
		p := t.drawPred(text, pos)
		switch t.N(3) {
		case 0:
			return op{"IfMatch(" + p.name + ")", func(s *tok.Scanner) bool { return s.IfMatch(p.f) }, fwdIf(p.f)}
		case 1:
			return op{"ToMatch(" + p.name + ")", func(s *tok.Scanner) bool { return s.ToMatch(p.f) }, fwdTo(p.f)}
		default:
			return op{"WhileMatch(" + p.name + ")", func(s *tok.Scanner) bool { return s.WhileMatch(p.f) }, fwdWhile(p.f)}
		}
	case 17:
		p := t.drawPred(text, pos)
		return op{"While(IfMatch " + p.name + ")",
			func(s *tok.Scanner) bool { return s.While(func() bool { return s.IfMatch(p.f) }) }, fwdWhile(p.f)}
	case 18:
		if t.P(1, 3) { // a body that says how often, and what each call moves
			steps := []int{}
			for i := t.In(0, 4); i > 0; i-- {
				steps = append(steps, t.N(3)*t.N(2))
			}
			last := t.N(3) * t.N(2) // moves and then says no
			return op{fmt.Sprintf("While(steps %v %d)", steps, last),
				func(s *tok.Scanner) bool {
					k := 0
					return s.While(func() bool {
						k++
						if k > len(steps) {
							s.Move(last)
							return false
						}
						s.Move(steps[k-1])
						return true
					})
				},
				func(text string, pos int) (int, bool) {
					n := pos
					for _, k := range append(append([]int{}, steps...), last) {
						if n+k <= len(text) {
							n += k
						}
					}
					return n, n != pos
				}}
		}
		p := t.Pattern(text, pos)
		if p == "" {
			p = "a"
		}
		return op{fmt.Sprintf("While(If %q)", p),
			func(s *tok.Scanner) bool { return s.While(func() bool { return s.If(p) }) },
			func(text string, pos int) (int, bool) {
				n := pos
				for strings.HasPrefix(text[n:], p) {
					n += len(p)
				}
				return n, n != pos
			}}
	default:
		n := 0
		switch t.N(5) {
		case 0:
			n = t.AnyInt(5)
		case 1:
			n = len(runesOf(text[pos:])) + t.In(-1, 1)
		default:
			n = t.Size(len(text) + 1)
		}
		return op{fmt.Sprintf("ScanString(%d)", n),
			func(s *tok.Scanner) bool {
				m := s.Mark()
				tail := s.Tail()
				str, ok := s.ScanString(n)
				if ok && str != tail[:s.Mark()-m] {
					panic(fmt.Sprintf("ScanString(%d) returned %q but consumed %q", n, str, tail[:s.Mark()-m]))
				}
				return ok
			},
			func(text string, pos int) (int, bool) {
				if n < 0 {
					return pos, false
				}
				p := pos
				for i := 0; i < n; i++ {
					_, w := decFwd(text[p:])
					if w == 0 {
						return pos, false
					}
					p += w
				}
				return p, true
			}}
	}
}

func validPattern(p string) string { return strings.ToValidUTF8(p, "\ufffd") }

// revOp draws a backward call with its model.
func (t *T) revOp(text string, pos int) op {
	switch t.N(17) {
	case 0:
		p := t.Pattern(text, pos)
		return op{fmt.Sprintf("RevIf(%q)", p), func(s *tok.Scanner) bool { return s.RevIf(p) },
			func(text string, pos int) (int, bool) {
				if _, ok := firstSuffix([]string{p}, text[:pos]); ok {
					return pos - len(p), true
				}
				return pos, false
			}}
	case 1:
		l := t.drawStrs(text, pos)
		return op{fmt.Sprintf("RevIfAny(%q)", l), func(s *tok.Scanner) bool { return s.RevIfAny(append([]string{}, l...)) },
			func(text string, pos int) (int, bool) {
				p, ok := firstSuffix(l, text[:pos])
				return pos - len(p), ok
			}}
	case 2:
		p := t.Pattern(text, pos)
		return op{fmt.Sprintf("RevTo(%q)", p), func(s *tok.Scanner) bool { return s.RevTo(p) },
			func(text string, pos int) (int, bool) {
				for i := pos; i >= len(p); i-- {
					if text[i-len(p):i] == p {
						return i, true
					}
				}
				return pos, false
			}}
	case 3:
		p := validPattern(t.Pattern(text, pos))
		return op{fmt.Sprintf("RevIfFold(%q)", p), func(s *tok.Scanner) bool { return s.RevIfFold(p) },
			func(text string, pos int) (int, bool) {
				n := foldSuffixLen(text[:pos], p)
				if n < 0 {
					return pos, false
				}
				return pos - n, true
			}}
	case 4:
		p := validPattern(t.Pattern(text, pos))
		return op{fmt.Sprintf("RevToFold(%q)", p), func(s *tok.Scanner) bool { return s.RevToFold(p) },
			func(text string, pos int) (int, bool) {
				for i := pos; ; {
					if foldSuffixLen(text[:i], p) >= 0 {
						return i, true
					}
					if i == 0 {
						return pos, false
					}
					_, w := decBack(text[:i])
					i -= w
				}
			}}
	case 5, 6, 7:
		r := t.RuneNear(text, pos)
		f := func(x rune) bool { return x == r }
		switch t.N(3) {
		case 0:
			return op{fmt.Sprintf("RevIfRune(%U)", r), func(s *tok.Scanner) bool { return s.RevIfRune(r) }, revIf(f)}
		case 1:
			return op{fmt.Sprintf("RevToRune(%U)", r), func(s *tok.Scanner) bool { return s.RevToRune(r) }, revTo(f)}
		default:
			return op{fmt.Sprintf("RevWhileRune(%U)", r), func(s *tok.Scanner) bool { return s.RevWhileRune(r) }, revWhile(f)}
		}
	case 8, 9, 10:
		set := t.drawSet(text, pos)
		l := runesOf(set)
		f := func(x rune) bool { return hasRune(l, x) }
		switch t.N(3) {
		case 0:
			return op{fmt.Sprintf("RevIfAnyRune(%q)", set), func(s *tok.Scanner) bool { return s.RevIfAnyRune(set) }, revIf(f)}
		case 1:
			return op{fmt.Sprintf("RevToAnyRune(%q)", set), func(s *tok.Scanner) bool { return s.RevToAnyRune(set) }, revTo(f)}
		default:
			return op{fmt.Sprintf("RevWhileAnyRune(%q)", set), func(s *tok.Scanner) bool { return s.RevWhileAnyRune(set) }, revWhile(f)}
		}
	case 11, 12, 13:
		a, b := t.drawRange(text, pos)
		f := func(x rune) bool { return a <= x && x <= b }
		switch t.N(3) {
		case 0:
			return op{fmt.Sprintf("RevIfBetween(%U,%U)", a, b), func(s *tok.Scanner) bool { return s.RevIfBetween(a, b) }, revIf(f)}
		case 1:
			return op{fmt.Sprintf("RevToBetween(%U,%U)", a, b), func(s *tok.Scanner) bool { return s.RevToBetween(a, b) }, revTo(f)}
		default:
			return op{fmt.Sprintf("RevWhileBetween(%U,%U)", a, b), func(s *tok.Scanner) bool { return s.RevWhileBetween(a, b) }, revWhile(f)}
		}
	default:
		p := t.drawPred(text, pos)
		switch t.N(3) {
		case 0:
			return op{"RevIfMatch(" + p.name + ")", func(s *tok.Scanner) bool { return s.RevIfMatch(p.f) }, revIf(p.f)}
		case 1:
			return op{"RevToMatch(" + p.name + ")", func(s *tok.Scanner) bool { return s.RevToMatch(p.f) }, revTo(p.f)}
		default:
			return op{"RevWhileMatch(" + p.name + ")", func(s *tok.Scanner) bool { return s.RevWhileMatch(p.f) }, revWhile(p.f)}
		}
	}
}

// moveOp draws a call that sets the position.
func (t *T) moveOp(text string, pos int) op {
	switch t.N(6) {
	case 0:
		n := t.AnyInt(len(text))
		if t.P(1, 3) {
			n = t.In(-pos, len(text)-pos)
		}
		return op{fmt.Sprintf("Move(%d)", n), func(s *tok.Scanner) bool { return s.Move(n) },
			func(text string, pos int) (int, bool) {
				if n > len(text)-pos || n < -pos {
					return pos, false
				}
				return pos + n, true
			}}
	case 1, 2:
		n := t.AnyInt(5)
		switch t.N(4) {
		case 0:
			n = len(runesOf(text[pos:])) + t.In(-2, 1)
		case 1:
			n = -countBack(text[:pos]) + t.In(-1, 2)
		}
		return op{fmt.Sprintf("MoveRunes(%d)", n), func(s *tok.Scanner) bool { return s.MoveRunes(n) },
			func(text string, pos int) (int, bool) {
				p := pos
				for i := 0; i < n; i++ {
					_, w := decFwd(text[p:])
					if w == 0 {
						return pos, false
					}
					p += w
				}
				for i := 0; i > n; i-- {
					_, w := decBack(text[:p])
					if w == 0 {
						return pos, false
					}
					p -= w
				}
				return p, true
			}}
	case 3:
		n := t.AnyInt(len(text))
		if t.P(1, 2) {
			n = t.In(-1, len(text)+1)
		}
		return op{fmt.Sprintf("ToMarker(%d)", n), func(s *tok.Scanner) bool { return s.ToMarker(tok.Marker(n)) },
			func(text string, pos int) (int, bool) {
				if n < 0 || n > len(text) {
					return pos, false
				}
				return n, true
			}}
	case 4:
		return op{"ToEnd", func(s *tok.Scanner) bool { return s.ToEnd() }, func(text string, pos int) (int, bool) { return len(text), true }}
	default:
		return op{"ToStart", func(s *tok.Scanner) bool { return s.ToStart() }, func(text string, pos int) (int, bool) { return 0, true }}
	}
}

func countBack(s string) int {
	n := 0
	for s != "" {
		_, w := decBack(s)
		s = s[:len(s)-w]
		n++
	}
	return n
}

// otherOp draws a read call (value reads, scopes); it has no model here.
func (t *T) otherOp(text string, pos int) op {
	switch t.N(9) {
	case 0:
		return op{"ReadRune", func(s *tok.Scanner) bool { _, e := s.ReadRune(); return e == nil }, nil}
	case 1:
		return op{"RevReadRune", func(s *tok.Scanner) bool { _, e := s.RevReadRune(); return e == nil }, nil}
	case 2:
		f := t.Str([]string{"", "*", "l", "U", "Cc", "x"})
		return op{"ReadBool " + f, func(s *tok.Scanner) bool { _, e := s.ReadBool(f); return e == nil }, nil}
	case 3:
		b, n := t.drawBaseBits()
		return op{fmt.Sprintf("ReadInt(%d,%d)", b, n), func(s *tok.Scanner) bool { _, e := s.ReadInt(b, n); return e == nil }, nil}
	case 4:
		b, n := t.drawBaseBits()
		return op{fmt.Sprintf("ReadUint(%d,%d)", b, n), func(s *tok.Scanner) bool { _, e := s.ReadUint(b, n); return e == nil }, nil}
	case 5:
		o := t.fwdOp(text, pos)
		res := t.P(1, 2)
		return op{"Scope " + o.name, func(s *tok.Scanner) bool { return s.Scope(func() bool { o.run(s); return res }) }, nil}
	case 6:
		o := t.revOp(text, pos)
		res := t.P(1, 2)
		return op{"Trace " + o.name, func(s *tok.Scanner) bool { _, ok := s.Trace(func() bool { o.run(s); return res }); return ok }, nil}
	case 7:
		o := t.moveOp(text, pos)
		res := t.P(1, 2)
		return op{"Capture " + o.name, func(s *tok.Scanner) bool { _, ok := s.Capture(func() bool { o.run(s); return res }); return ok }, nil}
	default:
		o := t.revOp(text, pos)
		res := t.P(1, 2)
		return op{"Tokenize " + o.name, func(s *tok.Scanner) bool { _, ok := s.Tokenize(func() bool { o.run(s); return res }); return ok }, nil}
	}
}

func (t *T) drawBaseBits() (int, int) {
	b := []int{8, 10, 16}[t.N(3)]
	n := []int{8, 16, 32, 64}[t.N(4)]
	if t.P(1, 15) {
		b = t.AnyInt(20)
	}
	if t.P(1, 15) {
		n = t.AnyInt(70)
	}
	return b, n
}

func opName(n string) string {
	if i := strings.IndexAny(n, "( "); i > 0 {
		return n[:i]
	}
	return n
}

func checkState(t *T, s *tok.Scanner, text string, after string) int {
	m := int(s.Mark())
	if m < 0 || m > len(text) {
		t.Failf("position %d outside of the text of %d bytes after %s", m, len(text), after)
	}
	if s.Head() != text[:m] || s.Tail() != text[m:] {
		t.Failf("Head %q and Tail %q are not the text %q split at %d after %s", clip(s.Head(), 200), clip(s.Tail(), 200), clip(text, 400), m, after)
	}
	if s.AtStart() != (m == 0) || s.AtEnd() != (m == len(text)) {
		t.Failf("AtStart=%v AtEnd=%v at %d of %d after %s", s.AtStart(), s.AtEnd(), m, len(text), after)
	}
	return m
}

// runC01Far: moves in texts of more than 64 Ki runes.
func runC01Far(t *T) {
	piece := ""
	for i := t.In(1, 40); i > 0; i-- {
		piece += t.atom()
	}
	n := t.In(1, 400)
	if t.P(2, 3) {
		n = 1<<16 + t.N(1<<17)
	}
	text := strings.Repeat(piece, n/len(piece)+1)
	starts := []int{}
	for p := 0; p < len(text); {
		starts = append(starts, p)
		_, w := decFwd(text[p:])
		p += w
	}
	starts = append(starts, len(text))
	back := []int{len(text)}
	for p := len(text); p > 0; {
		_, w := decBack(text[:p])
		p -= w
		back = append(back, p)
	}
	t.Notef("%d times %q", n/len(piece)+1, piece)
	s := tok.NewScanner(text)
	check := func(what string, ok bool, pos int, wok bool) {
		if ok != wok || int(s.Mark()) != pos {
			t.Failf("%s in a text of %d bytes: %v at %d, expected %v at %d", what, len(text), ok, s.Mark(), wok, pos)
		}
		if s.Head() != text[:pos] || s.Tail() != text[pos:] {
			t.Failf("after %s in a text of %d bytes head and tail are not the text", what, len(text))
		}
	}
	for i := 0; i < 12; i++ {
		k := t.In(-2, len(starts)+1)
		switch t.N(4) {
		case 0:
			k = 1<<t.In(1, 17) + t.In(-1, 1)
		case 1:
			k = len(starts) + t.In(-2, 2)
		}
		if t.P(1, 2) {
			s.ToStart()
			want, ok := 0, false
			if k >= 0 && k < len(starts) {
				want, ok = starts[k], true
			}
			check(fmt.Sprintf("MoveRunes(%d)", k), s.MoveRunes(k), want, ok || k == 0)
		} else {
			s.ToEnd()
			want, ok := len(text), false
			if k >= 0 && k < len(back) {
				want, ok = back[k], true
			}
			check(fmt.Sprintf("MoveRunes(%d) from the end", -k), s.MoveRunes(-k), want, ok || k == 0)
		}
		m := t.In(-1, len(text)+1)
		if t.P(1, 3) {
			m = 1<<t.In(1, 18) + t.In(-1, 1)
		}
		s.ToStart()
		want := m
		if m < 0 || m > len(text) {
			want = 0
		}
		check(fmt.Sprintf("Move(%d)", m), s.Move(m), want, m >= 0 && m <= len(text))
		s.ToStart()
		check(fmt.Sprintf("ToMarker(%d)", m), s.ToMarker(tok.Marker(m)), want, m >= 0 && m <= len(text))
		t.Obs("far move")
	}
	t.Distinct("far", piece, fmt.Sprint(n))
}

func runC01(t *T, n int, max int) {
	text := t.Text(max)
	var s *tok.Scanner
	start := 0
	if t.P(1, 3) {
		s = tok.NewRevScanner(text)
		start = len(text)
	} else {
		s = tok.NewScanner(text)
	}
	t.Notef("text %q", clip(text, 3000))
	pos := checkState(t, s, text, "creation")
	if pos != start {
		t.Failf("a new scanner starts at %d instead of %d", pos, start)
	}
	trace := []string{}
	for i := 0; i < n; i++ {
		var o op
		kind := ""
		switch t.N(10) {
		case 0, 1, 2, 3:
			o = t.moveOp(text, pos)
			kind = "move"
		case 4, 5:
			o = t.fwdOp(text, pos)
			kind = "forward"
		case 6, 7:
			o = t.revOp(text, pos)
			kind = "backward"
		default:
			o = t.otherOp(text, pos)
			kind = "read"
		}
		t.Notef("at %d: %s", pos, o.name)
		ok := o.run(s)
		np := checkState(t, s, text, o.name)
		if kind == "move" {
			want, wok := o.model(text, pos)
			if np != want || ok != wok {
				t.Failf("%s at %d of %q: got position %d, %v, expected %d, %v", o.name, pos, clip(text, 400), np, ok, want, wok)
			}
			if wok {
				t.Obs("move accepted")
			} else {
				t.Obs("move refused")
			}
		}
		t.Obs("call " + kind)
		if np != pos {
			t.Obs("position changed")
		}
		trace = append(trace, opName(o.name))
		pos = np
	}
	if len(text) > 0 {
		t.Distinct(text, strings.Join(trace, ","))
	}
	t.Sample("text %q: %s", clip(text, 60), clip(strings.Join(t.note[1:], "; "), 300))
}

func runOps(t *T, draw func(text string, pos int) op, max int, per int) {
	text := ""
	if max > 3000 {
		text = t.TextN(t.big(max))
	} else {
		text = t.Text(max)
	}
	t.Notef("text %q", clip(text, 3000))
	for i := 0; i < per; i++ {
		pos := t.Position(text)
		o := draw(text, pos)
		s := tok.NewScanner(text)
		if !s.ToMarker(tok.Marker(pos)) {
			t.Failf("ToMarker(%d) refused", pos)
		}
		judgeOp(t, s, text, pos, o)
		if t.P(1, 4) { // the same call again where the first one ended
			p := int(s.Mark())
			judgeOp(t, s, text, p, o)
		}
	}
}

// Far targets: what is looked for lies behind (or in front of) a long run of
// the same characters, at a distance around a power of two.
func runNeedle(t *T, draw func(text string, pos int) op, back bool) {
	fill := t.Str([]string{"x", " ", "a", "é", "語", "\n", "\xff", "ab", "0"})
	needle := t.Text(1 + t.Size(6))
	k := t.In(6, 13)
	if t.P(1, 6) {
		k = t.In(14, 16)
	}
	n := (1<<uint(k) + t.In(-3, 3)) / len(fill)
	run := strings.Repeat(fill, imax(n, 1))
	rest := t.Text(4)
	text, near, pos := rest[:t.Position(rest)], fill+needle+fill, 0
	at := len(fill)
	if back {
		text += strings.Repeat(fill, t.N(3)) + needle + run
		pos = len(text) - t.N(3)*len(fill)
		at += len(needle)
	} else {
		pos = len(text) + t.N(3)*len(fill)
		text += run + needle + strings.Repeat(fill, t.N(3))
	}
	if pos > len(text) || pos < 0 {
		pos = len(text)
	}
	for i := t.In(2, 5); i > 0; i-- {
		o := draw(near, at)
		s := tok.NewScanner(text)
		if !s.ToMarker(tok.Marker(pos)) {
			t.Failf("ToMarker(%d) refused", pos)
		}
		t.Notef("%d times %q, needle %q, at %d: %s", n, fill, needle, pos, o.name)
		judgeOp(t, s, text, pos, o)
		d := int(s.Mark()) - pos
		if d > 2000 || d < -2000 {
			t.Obs("far target")
		}
	}
}

// Histories: several scanners, a few calls that are repeated with the same
// arguments, moves and other calls in between.
func runHistory(t *T, draw, noise func(text string, pos int) op, max int) {
	type sca struct {
		s    *tok.Scanner
		text string
	}
	l := []sca{}
	for i := t.In(1, 3); i > 0; i-- {
		text := t.Text(max)
		if len(l) > 0 && t.P(1, 3) { // related texts
			text = l[0].text
			if t.P(1, 2) {
				text = text[t.Position(text):] + text
			}
		}
		l = append(l, sca{tok.NewScanner(text), text})
		t.Notef("text %d %q", len(l)-1, clip(text, 3000))
	}
	pool := []op{}
	for i := t.In(1, 4); i > 0; i-- {
		x := l[t.N(len(l))]
		pool = append(pool, draw(x.text, t.Position(x.text)))
	}
	for i := t.In(4, 30); i > 0; i-- {
		k := t.N(len(l))
		x := l[k]
		pos := int(x.s.Mark())
		switch t.N(9) {
		case 0, 1:
			x.s.ToMarker(tok.Marker(t.Position(x.text)))
		case 2:
			x.s.ToStart()
		case 3:
			x.s.ToEnd()
		case 4:
			o := noise(x.text, pos)
			t.Notef("scanner %d at %d: %s", k, pos, o.name)
			o.run(x.s)
		}
		pos = int(x.s.Mark())
		o := pool[t.N(len(pool))]
		if t.P(1, 4) {
			o = draw(x.text, pos)
		}
		t.Notef("scanner %d", k)
		judgeOp(t, x.s, x.text, pos, o)
		t.Obs("call in a history")
	}
}

func judgeOp(t *T, s *tok.Scanner, text string, pos int, o op) {
	t.Notef("at %d: %s", pos, o.name)
	ok := o.run(s)
	np := int(s.Mark())
	want, wok := o.model(text, pos)
	nm := opName(o.name)
	if np != want || ok != wok {
		// listed finding: when everything left matches, WhileAnyRune reports
		// true and stays where it is
		if nm == "WhileAnyRune" && want == len(text) && wok && pos < len(text) && np == pos && ok {
			t.Known("whileanyrune-all", o.name)
			return
		}
		t.Failf("%s at %d of %q: got position %d, %v, expected %d, %v", o.name, pos, clip(text, 600), np, ok, want, wok)
	}
	if wok {
		t.Obs(nm + " true")
		if want != pos {
			t.Distinct(text, o.name, fmt.Sprint(pos))
			t.Sample("%s at %d of %q -> %d", o.name, pos, clip(text, 60), want)
		}
	} else {
		t.Obs(nm + " false")
	}
}

// pinned inputs: defects that were found and repaired
type pin struct {
	text string
	pos  int
	name string
	run  func(s *tok.Scanner) bool
	want int
	ok   bool
}

var pinsC01 = []pin{
	{"abc", 0, "ToMarker(-1)", func(s *tok.Scanner) bool { return s.ToMarker(-1) }, 0, false},
	{"abc", 1, "ToMarker(4)", func(s *tok.Scanner) bool { return s.ToMarker(4) }, 1, false},
	{"a\ufffdb", 4, "MoveRunes(-2)", func(s *tok.Scanner) bool { return s.MoveRunes(-2) }, 0, true},
	{"a\xffb", 0, "MoveRunes(2)", func(s *tok.Scanner) bool { return s.MoveRunes(2) }, 2, true},
	{"a\xffb", 3, "MoveRunes(-2)", func(s *tok.Scanner) bool { return s.MoveRunes(-2) }, 1, true},
	{"a", 0, "IfFold(abc)", func(s *tok.Scanner) bool { return s.IfFold("abc") }, 0, false},
	{"", 0, "IfRune(FFFD)", func(s *tok.Scanner) bool { return s.IfRune(0xfffd) }, 0, false},
}

var pinsC02 = []pin{
	{"ab", 0, "ScanString(2)", func(s *tok.Scanner) bool { _, ok := s.ScanString(2); return ok }, 2, true},
	{"ab", 0, "ScanString(3)", func(s *tok.Scanner) bool { _, ok := s.ScanString(3); return ok }, 0, false},
	{"b", 0, "WhileRune(a)", func(s *tok.Scanner) bool { return s.WhileRune('a') }, 0, false},
	{"aaa", 0, "WhileMatch(all)", func(s *tok.Scanner) bool { return s.WhileMatch(func(rune) bool { return true }) }, 3, true},
	{"\u212a", 0, "IfFold(k)", func(s *tok.Scanner) bool { return s.IfFold("k") }, 3, true},
	{"xx\u212aey", 0, "ToFold(KEY)", func(s *tok.Scanner) bool { return s.ToFold("KEY") }, 2, true},
	{"", 0, "IfMatch(all)", func(s *tok.Scanner) bool { return s.IfMatch(func(rune) bool { return true }) }, 0, false},
}

var pinsC03 = []pin{
	{"ab5", 3, "RevIfBetween(0,9)", func(s *tok.Scanner) bool { return s.RevIfBetween('0', '9') }, 2, true},
	{"abx", 3, "RevIfBetween(0,9)", func(s *tok.Scanner) bool { return s.RevIfBetween('0', '9') }, 3, false},
	{"ab", 2, "RevIfMatch(b)", func(s *tok.Scanner) bool { return s.RevIfMatch(func(r rune) bool { return r == 'b' }) }, 1, true},
	{"", 0, "RevIfRune(FFFD)", func(s *tok.Scanner) bool { return s.RevIfRune(0xfffd) }, 0, false},
	{"", 0, "RevIfAnyRune(FFFD)", func(s *tok.Scanner) bool { return s.RevIfAnyRune("\ufffd") }, 0, false},
	{"a\ufffda", 5, "RevToRune(FFFD)", func(s *tok.Scanner) bool { return s.RevToRune(0xfffd) }, 4, true},
	{"b", 1, "RevWhileRune(a)", func(s *tok.Scanner) bool { return s.RevWhileRune('a') }, 1, false},
	{"K\u212a", 4, "RevIfFold(kk)", func(s *tok.Scanner) bool { return s.RevIfFold("kk") }, 0, true},
}

func runPins(t *T, l []pin) {
	for _, p := range l {
		s := tok.NewScanner(p.text)
		s.ToMarker(tok.Marker(p.pos))
		t.Notef("pinned: %s at %d of %q", p.name, p.pos, p.text)
		ok := p.run(s)
		if np := int(s.Mark()); np != p.want || ok != p.ok {
			t.Failf("%s at %d of %q: got position %d, %v, expected %d, %v", p.name, p.pos, p.text, np, ok, p.want, p.ok)
		}
		t.Obs("pinned")
	}
}

// systematic small texts: all texts up to length 4 over a small alphabet, all positions
var tinyAlpha = []string{"a", "b", "\xff", "é", "K"}

func tinyText(i int) string {
	var b strings.Builder
	for i > 0 {
		i--
		b.WriteString(tinyAlpha[i%len(tinyAlpha)])
		i /= len(tinyAlpha)
	}
	return b.String()
}

func init() {
	register(&Prop{ID: "C01",
		Rule:   "random texts (small alphabets of ASCII, multi-byte, case-pair, U+FFFD and invalid-byte atoms) and random call sequences over all position, scan and read calls with in-range, boundary and extreme arguments; non-trivial: non-empty text, distinct by text and call sequence",
		Floors: []string{"move accepted", "move refused", "call forward", "call backward", "call read", "position changed", "far move"},
		Assume: []string{"Go's UTF-8 convention: an invalid byte is one rune of one byte"},
		Suites: []Suite{
			{"pinned", 1, 1, func(t *T) { runPins(t, pinsC01) }},
			{"sequences", 60000, 3000000, func(t *T) { runC01(t, t.In(1, 30), 30) }},
			{"large", 1500, 60000, func(t *T) { runC01(t, t.In(10, 60), 3000) }},
			{"far moves", 60, 2000, runC01Far},
		}})
	register(&Prop{ID: "C02",
		Rule:   "random and systematic small texts, every start position class, patterns, sets, ranges and predicates derived from the text; each forward call compared with a byte-by-byte reference; non-trivial: the call has to move, distinct by text, call and position",
		Floors: []string{"If true", "If false", "IfAny true", "To true", "To false", "IfFold true", "ToFold true", "ToFold false", "IfRune true", "ToRune true", "WhileRune true", "WhileRune false", "IfAnyRune true", "ToAnyRune true", "WhileAnyRune true", "IfBetween true", "ToBetween true", "WhileBetween true", "IfMatch true", "ToMatch true", "WhileMatch true", "While true", "ScanString true", "ScanString false", "call in a history"},
		Assume: []string{"Unicode simple case folding as in Go's unicode package"},
		Suites: []Suite{
			{"pinned", 1, 1, func(t *T) { runPins(t, pinsC02) }},
			{"finding", 1, 1, func(t *T) {
				for _, text := range []string{"a", "aaa", "éé"} {
					s := tok.NewScanner(text)
					judgeOp(t, s, text, 0, op{"WhileAnyRune(witness)", func(s *tok.Scanner) bool { return s.WhileAnyRune("aé") },
						fwdWhile(func(r rune) bool { return r == 'a' || r == 'é' })})
				}
			}},
			{"tiny", 781, 781, func(t *T) {
				text := tinyText(t.idx)
				t.Notef("text %q", text)
				for k := 0; k < 400; k++ {
					pos := t.In(0, len(text))
					o := t.fwdOp(text, pos)
					s := tok.NewScanner(text)
					s.ToMarker(tok.Marker(pos))
					judgeOp(t, s, text, pos, o)
				}
			}},
			{"random", 60000, 3000000, func(t *T) { runOps(t, t.fwdOp, 40, 12) }},
			{"large", 1500, 60000, func(t *T) { runOps(t, t.fwdOp, 3000, 12) }},
			{"needles", 6000, 200000, func(t *T) { runNeedle(t, t.fwdOp, false) }},
			{"giants", 60, 4000, func(t *T) { runOps(t, t.fwdOp, 6000, 12) }},
			{"histories", 15000, 600000, func(t *T) {
				runHistory(t, t.fwdOp, func(x string, p int) op {
					if t.P(1, 2) {
						return t.revOp(x, p)
					}
					return t.otherOp(x, p)
				}, 40)
			}},
		}})
	register(&Prop{ID: "C03",
		Rule:   "as C02 for the backward calls, compared with a reference that decodes from the right; non-trivial: the call has to move, distinct by text, call and position",
		Floors: []string{"RevIf true", "RevIf false", "RevIfAny true", "RevTo true", "RevTo false", "RevIfFold true", "RevToFold true", "RevToFold false", "RevIfRune true", "RevToRune true", "RevWhileRune true", "RevIfAnyRune true", "RevToAnyRune true", "RevWhileAnyRune true", "RevIfBetween true", "RevToBetween true", "RevWhileBetween true", "RevIfMatch true", "RevToMatch true", "RevWhileMatch true", "call in a history"},
		Assume: []string{"Unicode simple case folding as in Go's unicode package"},
		Suites: []Suite{
			{"pinned", 1, 1, func(t *T) { runPins(t, pinsC03) }},
			{"tiny", 781, 781, func(t *T) {
				text := tinyText(t.idx)
				t.Notef("text %q", text)
				for k := 0; k < 400; k++ {
					pos := t.In(0, len(text))
					o := t.revOp(text, pos)
					s := tok.NewScanner(text)
					s.ToMarker(tok.Marker(pos))
					judgeOp(t, s, text, pos, o)
				}
			}},
			{"random", 60000, 3000000, func(t *T) { runOps(t, t.revOp, 40, 12) }},
			{"large", 1500, 60000, func(t *T) { runOps(t, t.revOp, 3000, 12) }},
			{"needles", 6000, 200000, func(t *T) { runNeedle(t, t.revOp, true) }},
			{"giants", 60, 4000, func(t *T) { runOps(t, t.revOp, 6000, 12) }},
			{"histories", 15000, 600000, func(t *T) {
				runHistory(t, t.revOp, func(x string, p int) op {
					if t.P(1, 2) {
						return t.fwdOp(x, p)
					}
					return t.otherOp(x, p)
				}, 40)
			}},
		}})
	register(&Prop{ID: "C22",
		Rule:   "texts over line-break, tab and multi-byte heavy alphabets, every position of each text, all tab widths; compared with a byte-by-byte reference; non-trivial: position behind at least one line feed or tab, distinct by text and position",
		Floors: []string{"line > 1", "tab", "crlf", "multi-byte", "asked in a history", "more than 65536 lines", "long line"},
		Suites: []Suite{
			{"all positions", 20000, 1000000, runC22},
			{"histories", 20000, 1000000, runC22History},
			{"long texts", 200, 10000, runC22Giant},
		}})
}

// one or several scanners, positions in any order, different tab widths
func runC22History(t *T) {
	alpha := []string{"\n", "\r\n", "\r", "\t", "a", "é", "\xff", "ab"}
	texts, scas := []string{}, []*tok.Scanner{}
	for k := t.In(1, 3); k > 0; k-- {
		var b strings.Builder
		for i := t.Size(60); i > 0; i-- {
			b.WriteString(t.Str(alpha))
		}
		texts = append(texts, b.String())
		scas = append(scas, tok.NewScanner(b.String()))
		t.Notef("text %q", clip(b.String(), 2000))
	}
	tabs := []int{t.In(0, 8), t.In(0, 8)}
	if t.P(1, 8) {
		tabs[1] = t.wideTab()
	}
	for i := t.In(4, 40); i > 0; i-- {
		k := t.N(len(scas))
		s, text := scas[k], texts[k]
		switch t.N(4) {
		case 0:
			s.ToMarker(tok.Marker(t.In(0, len(text))))
		case 1:
			s.Move(t.In(-3, 3))
		case 2:
			o := t.fwdOp(text, int(s.Mark()))
			if t.P(1, 2) {
				o = t.revOp(text, int(s.Mark()))
			}
			o.run(s)
		}
		pos := int(s.Mark())
		tab := tabs[t.N(2)]
		line, col := 1, 1
		for _, c := range []byte(text[:pos]) {
			switch c {
			case '\n':
				line++
				col = 1
			case '\t':
				col += tab
			default:
				col++
			}
		}
		t.Notef("scanner %d at %d, tab %d", k, pos, tab)
		gl, gc := s.LineCol(tab)
		if gl != line || gc != col {
			t.Failf("LineCol(%d) at %d of %q: got %d:%d, expected %d:%d", tab, pos, clip(text, 400), gl, gc, line, col)
		}
		t.Obs("asked in a history")
	}
	t.Distinct(texts...)
}

// runC22Giant: many lines, many tabs, long lines.
func runC22Giant(t *T) {
	var b strings.Builder
	for k := t.In(1, 4); k > 0; k-- {
		b.WriteString(strings.Repeat(t.Str([]string{"\n", "\r\n", "\t", "a", "é", "\r", "ab\n", "\t\n", "\n\t", "x\ty", "\ra", "a\n\n"}), t.big(150000)))
		b.WriteString(t.Str([]string{"", "a", "\t", "\n", "\r\n"}))
	}
	text := b.String()
	tab := t.In(0, 12)
	s := tok.NewScanner(text)
	for i := t.In(3, 6); i > 0; i-- {
		pos := len(text)
		if t.P(3, 4) {
			pos = t.In(0, len(text))
		}
		s.ToMarker(tok.Marker(pos))
		head := text[:pos]
		line, start := 1+strings.Count(head, "\n"), strings.LastIndexByte(head, '\n')+1
		col := 1
		for _, c := range []byte(head[start:]) {
			if c == '\t' {
				col += tab
			} else {
				col++
			}
		}
		t.Notef("%d bytes from %q, at %d, tab %d", len(text), clip(text, 40), pos, tab)
		if gl, gc := s.LineCol(tab); gl != line || gc != col {
			t.Failf("LineCol(%d) at %d of %d bytes: got %d:%d, expected %d:%d", tab, pos, len(text), gl, gc, line, col)
		}
		if line > 65536 {
			t.Obs("more than 65536 lines")
		}
		if pos-start > 10000 {
			t.Obs("long line")
		}
	}
	t.Distinct("long", fmt.Sprint(len(text)), clip(text, 40))
}

func runC22(t *T) {
	alpha := []string{"\n", "\r\n", "\r", "\t", "a", "b ", "é", "語", "\xff", "\n\n", "\r\r\n", "x\ty", "\x00"}
	var b strings.Builder
	for i := t.Size(200); i > 0; i-- {
		b.WriteString(t.Str(alpha))
	}
	text := b.String()
	if t.P(1, 4) {
		text = t.Text(60)
	}
	tab := t.In(0, 12)
	if t.P(1, 10) {
		tab = t.In(-3, 1000)
	}
	if t.P(1, 10) {
		tab = t.wideTab()
	}
	t.Notef("text %q tab %d", clip(text, 2000), tab)
	s := tok.NewScanner(text)
	line, start := 1, 0
	for pos := 0; pos <= len(text); pos++ {
		if pos > 0 && text[pos-1] == '\n' {
			line++
			start = pos
		}
		col := 1
		for i := start; i < pos; i++ {
			if text[i] == '\t' {
				col += tab
				t.Obs("tab")
			} else {
				col++
			}
			if text[i] >= 0x80 {
				t.Obs("multi-byte")
			}
		}
		if line > 1 {
			t.Obs("line > 1")
			t.Distinct(text, fmt.Sprint(pos, tab))
			if strings.Contains(text[:pos], "\r\n") {
				t.Obs("crlf")
			}
		}
		if !s.ToMarker(tok.Marker(pos)) {
			t.Failf("ToMarker(%d) refused", pos)
		}
		gl, gc := s.LineCol(tab)
		if gl != line || gc != col {
			t.Failf("LineCol(%d) at %d of %q: got %d:%d, expected %d:%d", tab, pos, clip(text, 400), gl, gc, line, col)
		}
		if int(s.Mark()) != pos {
			t.Failf("LineCol moved the scanner")
		}
	}
	t.Sample("%q tab %d: %d positions", clip(text, 60), tab, len(text)+1)
}
