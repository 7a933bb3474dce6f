package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/aiq/tok"
)

// Readers of the user: what they do is scripted, call by call.

type foreignStep struct {
	move int // on success, clipped to the text
	err  error
}

type foreign struct {
	name  string
	steps []foreignStep
	next  int
}

func (f *foreign) What() string { return f.name }

func (f *foreign) Read(s *tok.Scanner) error {
	if f.next >= len(f.steps) {
		return s.ErrorFor(f.name)
	}
	x := f.steps[f.next]
	f.next++
	if x.err == nil {
		s.Move(x.move)
	}
	return x.err
}

func (t *T) foreign(name string, limit int) *foreign {
	f := &foreign{name: name}
	for i := t.In(1, 6); i > 0; i-- {
		st := foreignStep{}
		switch t.N(6) {
		case 0:
			st.err = tok.ReadError{Marker: tok.Marker(t.In(0, limit)), What: name + "!"}
		case 1:
			st.err = errors.New(name + " broken")
		case 2:
			st.move = -t.In(0, 3)
		default:
			st.move = t.In(0, 3)
		}
		f.steps = append(f.steps, st)
	}
	return f
}

// restProbe checks that a failed read left the position.
type restProbe struct {
	sub tok.Reader
	bad *string
	n   *int
}

func (p *restProbe) What() string { return p.sub.What() }

func (p *restProbe) Read(s *tok.Scanner) error {
	m := s.Mark()
	err := p.sub.Read(s)
	if err != nil {
		*p.n++
		if s.Mark() != m && *p.bad == "" {
			*p.bad = fmt.Sprintf("%s failed (%v) and left the scanner at %d instead of %d", clip(p.What(), 200), err, s.Mark(), m)
		}
	}
	return err
}

type foreignProg struct {
	text    string
	pos     int
	fs      []*foreign
	names   bool // observers may rename
	bk      *tok.Basket
	log     *tok.Log
	dressed bool
	bad     string
	failed  int
	direct  bool // read without Use
	mk      func(observe bool) tok.Reader
}

func (t *T) foreignProg(observers, probes bool) *foreignProg {
	p := &foreignProg{text: t.Text(20), bk: &tok.Basket{}, log: &tok.Log{}}
	p.pos = t.Position(p.text)
	p.fs = []*foreign{t.foreign("f", len(p.text)), t.foreign("g", len(p.text))}
	p.names = t.P(1, 2)
	// a composition is drawn once and built twice
	var build func(d int) func(observe bool) tok.Reader
	build = func(d int) func(bool) tok.Reader {
		var mk func(bool) tok.Reader
		k := t.N(18)
		if d == 0 {
			k = t.N(3)
		}
		var a, b func(bool) tok.Reader
		if k > 2 {
			a, b = build(d-1), build(d-1)
		}
		switch k {
		case 0, 1:
			mk = func(bool) tok.Reader { return p.fs[k] }
		case 2:
			r := t.RuneNear(p.text, p.pos)
			mk = func(bool) tok.Reader { return tok.Rune(r) }
		case 3, 4:
			mk = func(o bool) tok.Reader { return tok.Seq(a(o), b(o)) }
		case 5, 6:
			mk = func(o bool) tok.Reader { return tok.Any(a(o), b(o)) }
		case 7:
			mk = func(o bool) tok.Reader { return tok.Opt(a(o)) }
		case 8:
			mk = func(o bool) tok.Reader { return tok.Many(a(o)) }
		case 9:
			mk = func(o bool) tok.Reader { return tok.Zom(a(o)) }
		case 10:
			mk = func(o bool) tok.Reader { return tok.Not(a(o)) }
		case 11:
			n := t.N(4)
			mk = func(o bool) tok.Reader { return tok.Times(n, a(o)) }
		case 12:
			mk = func(o bool) tok.Reader { return tok.To(a(o)) }
		case 13:
			mk = func(o bool) tok.Reader { return tok.Past(a(o)) }
		case 14:
			mk = func(o bool) tok.Reader { return tok.Body(a(o), b(o)) }
		case 15:
			mk = func(o bool) tok.Reader { return tok.BodyTail(a(o), b(o)) }
		case 16:
			mk = func(o bool) tok.Reader { return tok.SkipSeq(tok.Zom(' '), a(o), b(o)) }
		default:
			mk = func(o bool) tok.Reader { return tok.At(a(o)) }
		}
		for n := 0; observers && n < 3 && t.P(1, 2); n++ {
			kind, inner := t.N(5), mk
			if kind > 2 && !p.names {
				continue
			}
			p.dressed = true
			mk = func(o bool) tok.Reader {
				r := inner(o)
				if !o {
					return r
				}
				switch kind {
				case 0:
					return tok.Map(r, func(tok.Token) {})
				case 1:
					return tok.Pick(r, p.bk, "p")
				case 2:
					return tok.Monitor(r, p.log, "m")
				case 3:
					return tok.Named("n", r)
				}
				return &tok.Rule{Name: "rule", Reader: r}
			}
		}
		if probes {
			inner := mk
			mk = func(o bool) tok.Reader { return &restProbe{inner(o), &p.bad, &p.failed} }
		}
		return mk
	}
	p.mk = build(t.In(1, 3))
	t.Notef("%s", p)
	return p
}

func (p *foreignProg) String() string {
	return fmt.Sprintf("%s at %d of %q, f %v, g %v", p.mk(true).What(), p.pos, p.text, p.fs[0].steps, p.fs[1].steps)
}

func (p *foreignProg) run(o bool) (string, int, int) {
	for _, f := range p.fs {
		f.next = 0
	}
	s := tok.NewScanner(p.text)
	s.ToMarker(tok.Marker(p.pos))
	if o {
		s.Tracker = p.bk
	}
	var err error
	if p.direct {
		err = p.mk(o).Read(s)
	} else {
		err = s.Use(p.mk(o))
	}
	return errKey(err, !p.names), int(s.Mark()), p.fs[0].next + p.fs[1].next
}

// runC19Foreign: compositions of foreign readers, with and without observers.
func runC19Foreign(t *T) {
	p := t.foreignProg(true, false)
	e1, p1, n1 := p.run(false)
	e2, p2, n2 := p.run(true)
	if e1 != e2 || p1 != p2 || n1 != n2 {
		t.Failf("alone: %s at %d, observed: %s at %d (%d and %d reads): %s", e1, p1, e2, p2, n1, n2, p)
	}
	if p.dressed {
		t.Obs("foreign readers observed")
		if strings.HasPrefix(e1, "error") {
			t.Obs("foreign error")
		}
		t.Distinct("foreign", p.String())
	}
}

// runC04Foreign: every failed read of a composition of foreign readers.
func runC04Foreign(t *T) {
	p := t.foreignProg(t.P(1, 2), t.P(1, 2))
	p.direct = t.P(1, 2)
	e, pos, _ := p.run(true)
	if p.bad != "" {
		t.Failf("%s: %s", p.bad, p)
	}
	if e != "ok" && pos != p.pos {
		t.Failf("the use failed (%s) and left the scanner at %d: %s", e, pos, p)
	}
	if p.failed > 0 || e != "ok" {
		t.Obs("foreign readers failed")
		t.Distinct("foreign", p.String())
	}
}
