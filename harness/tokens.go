package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/aiq/tok"
)

func mk(a, b int) tok.Token { return tok.MakeToken(tok.Marker(a), tok.Marker(b)) }

type iv struct{ f, t int }

func mkIv(a, b int) iv {
	if a > b {
		a, b = b, a
	}
	return iv{a, b}
}

func (a iv) covers(b iv) bool { return a.f <= b.f && b.t <= a.t }
func (a iv) shares(b iv) bool { return imax(a.f, b.f) < imin(a.t, b.t) }
func (a iv) clashes(b iv) bool {
	return a.shares(b) && !a.covers(b) && !b.covers(a)
}
func (a iv) tok() tok.Token { return mk(a.f, a.t) }

// --------------------------------------------------------------------------- C09

func judgeTokens(t *T, x, y iv, flipX, flipY bool) {
	a, b := mk(x.f, x.t), mk(y.f, y.t)
	if flipX {
		a = mk(x.t, x.f)
	}
	if flipY {
		b = mk(y.t, y.f)
	}
	chk := func(name string, got, want interface{}) {
		if got != want {
			t.Failf("%s of %v and %v: got %v, expected %v", name, x, y, got, want)
		}
	}
	chk("made token", a, mk(x.f, x.t))
	chk("Len", a.Len(), x.t-x.f)
	chk("Before", a.Before(b), x.t <= y.f)
	chk("After", a.After(b), x.f >= y.t)
	chk("Covers", a.Covers(b), x.covers(y))
	chk("Clashes", a.Clashes(b), x.clashes(y))
	chk("Clashes reversed", b.Clashes(a), x.clashes(y))
	chk("Merge", a.Merge(b), mk(imin(x.f, y.f), imax(x.t, y.t)))
	if x.covers(y) {
		l, r := a.Split(b)
		chk("Split left", l, mk(x.f, y.f))
		chk("Split right", r, mk(y.t, x.t))
		for _, i := range [][2]string{{"whole", "part"}, {"", "part"}, {"whole", ""}, {"", ""}, {"same", "same"}} {
			sl, sr := (tok.Segment{Info: i[0], Token: a}).Split(tok.Segment{Info: i[1], Token: b})
			chk("Segment.Split left", sl, tok.Segment{Info: i[0], Token: mk(x.f, y.f)})
			chk("Segment.Split right", sr, tok.Segment{Info: i[0], Token: mk(y.t, x.t)})
		}
		t.Obs("split")
	}
	switch {
	case x.clashes(y):
		t.Obs("clash")
	case x.covers(y) && y.covers(x):
		t.Obs("equal")
	case x.covers(y):
		t.Obs("covers")
	case x.t == y.f:
		t.Obs("touching")
	case x.t < y.f:
		t.Obs("before")
	}
	if x.f == x.t || y.f == y.t {
		t.Obs("empty")
	}
	t.Distinct(fmt.Sprint(x, y))
}

func runC09Tiny(t *T) {
	// all pairs of intervals with bounds in 0..6, both ways of making them
	i := t.idx
	x := mkIv(i%7, i/7%7)
	for c := 0; c < 49; c++ {
		y := mkIv(c%7, c/7)
		judgeTokens(t, x, y, i%7 > i/7%7, c%7 > c/7)
	}
}

func (t *T) drawMark() int {
	switch t.N(6) {
	case 0:
		return t.In(-5, 5)
	case 1:
		return t.In(0, 1<<40)
	case 2:
		return 1<<62 - t.N(5)
	}
	return t.In(0, 30)
}

// marks around a power of two
func (t *T) baseMark() int {
	if t.P(1, 3) {
		return 1<<uint(t.In(7, 61)) - t.In(0, 20)
	}
	return 0
}

func runC09(t *T) {
	if b := t.baseMark(); b > 0 {
		near := func() int { return b + t.In(-5, 30) }
		x, y := mkIv(near(), near()), mkIv(near(), near())
		t.Notef("%v %v", x, y)
		judgeTokens(t, x, y, t.P(1, 2), t.P(1, 2))
		t.Obs("around a power of two")
	}
	x, y, z := mkIv(t.drawMark(), t.drawMark()), mkIv(t.drawMark(), t.drawMark()), mkIv(t.drawMark(), t.drawMark())
	t.Notef("%v %v %v", x, y, z)
	judgeTokens(t, x, y, t.P(1, 2), t.P(1, 2))
	a, b, c := x.tok(), y.tok(), z.tok()
	if a.Merge(b) != b.Merge(a) || a.Merge(b).Merge(c) != a.Merge(b.Merge(c)) || a.Merge(a) != a {
		t.Failf("merge laws fail for %v %v %v", a, b, c)
	}
	m := a.Merge(b)
	if !m.Covers(a) || !m.Covers(b) || (c.Covers(a) && c.Covers(b) && !c.Covers(m)) {
		t.Failf("the merge of %v and %v is not the smallest cover", a, b)
	}
	if a.Covers(b) && b.Covers(c) && !a.Covers(c) {
		t.Failf("covers is not transitive for %v %v %v", a, b, c)
	}
	seg := tok.Segment{Info: t.Str([]string{"", "x", "é", " ", "\x00"}), Token: a}
	if seg.Known() != (seg.Info != "") {
		t.Failf("Known of %v", seg)
	}
	if l := numbersIn(a.String(), x.f < 0 || x.t < 0); len(l) != 2 || l[0] != x.f || l[1] != x.t {
		t.Failf("the text form of the token from %d to %d is %q", x.f, x.t, a.String())
	}
	seg.Info = t.Str([]string{"", "x", "é", "a b", "[1-2)", "s" + oddEnd(t.N(40)), oddEnd(2*t.N(20) + 1)})
	if !strings.HasPrefix(seg.String(), seg.Info) || seg.String()[len(seg.Info):] != a.String() {
		t.Failf("the text form of the segment %q with %q is %q", seg.Info, a.String(), seg.String())
	}
	t.Sample("%v %v %v", a, b, c)
}

// numbersIn finds the decimal numbers of a text; a '-' belongs to the number
// behind it when it does not follow a digit.
func numbersIn(s string, signed bool) []int {
	l := []int{}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			continue
		}
		a := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		n, _ := strconv.Atoi(s[a:i])
		if signed && a > 0 && s[a-1] == '-' && (a == 1 || s[a-2] < '0' || s[a-2] > '9') {
			n = -n
		}
		l = append(l, n)
	}
	return l
}

// --------------------------------------------------------------------------- C11

// laminar draws segments that do not clash, in random order.
func (t *T) laminar(f, z, n int, empty bool) []iv {
	l := []iv{}
	var rec func(f, z, n int)
	rec = func(f, z, n int) {
		if n <= 0 || f > z || (f == z && !empty) {
			return
		}
		if t.P(1, 2) { // one node around the rest
			l = append(l, iv{f, z})
			if t.P(1, 6) {
				l = append(l, iv{f, z})
			}
			n--
			if z > f && t.P(1, 2) {
				f += t.N(2)
				z -= t.N(2)
			}
			rec(f, z, n)
			return
		}
		m := t.In(f, z)
		rec(f, m, n/2)
		g := m
		if t.P(1, 3) {
			g = imin(z, m+t.N(3))
		}
		rec(g, z, n-n/2)
	}
	rec(f, z, n)
	if empty {
		for i := t.N(3); i > 0; i-- {
			p := t.In(f, z)
			l = append(l, iv{p, p})
		}
	}
	for i := len(l) - 1; i > 0; i-- {
		j := t.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

type segIv struct {
	iv
	info string
	no   int
}

func (s segIv) seg() tok.Segment { return tok.Segment{Info: s.info, Token: s.tok()} }

func flame(b *strings.Builder, prefix string, i int, n *tok.Node) {
	path := prefix + strconv.Itoa(i) + "." + n.Segment.String()
	b.WriteString(path + " " + strconv.Itoa(n.Len()) + "\n")
	for j, s := range n.Nodes {
		flame(b, path+";", j+1, s)
	}
}

func leafs(n *tok.Node, l *[]tok.Segment) {
	if len(n.Nodes) == 0 {
		*l = append(*l, n.Segment)
		return
	}
	for _, s := range n.Nodes {
		leafs(s, l)
	}
}

func dump(n *tok.Node) string {
	b := n.Segment.String()
	if len(n.Nodes) > 0 {
		a := []string{}
		for _, s := range n.Nodes {
			a = append(a, dump(s))
		}
		b += "{" + strings.Join(a, " ") + "}"
	}
	return b
}

func judgeGraph(t *T, g *tok.Graph, acc map[string]segIv) {
	seen := map[string]bool{}
	var walk func(n *tok.Node, root bool)
	walk = func(n *tok.Node, root bool) {
		if !root {
			s, ok := acc[n.Info]
			if !ok || s.seg() != n.Segment {
				t.Failf("node %v was never accepted: %s", n.Segment, dump(g.Root))
			}
			if seen[n.Info] {
				t.Failf("node %v is twice in the graph: %s", n.Segment, dump(g.Root))
			}
			seen[n.Info] = true
		}
		for i, s := range n.Nodes {
			if s == nil {
				t.Failf("nil node in %s", n.Segment)
			}
			c := acc[s.Info]
			var p iv
			if root {
				p = rootIv(n, acc)
			} else {
				p = acc[n.Info].iv
			}
			if !p.covers(c.iv) {
				t.Failf("node %v does not cover its child %v: %s", n.Segment, s.Segment, dump(g.Root))
			}
			if !root && p == c.iv && p.f != p.t && acc[n.Info].no < c.no {
				t.Failf("of the equal ranges the earlier %v encloses the later %v: %s", n.Segment, s.Segment, dump(g.Root))
			}
			if i > 0 {
				q := acc[n.Nodes[i-1].Info]
				if q.t > c.f {
					t.Failf("siblings %v and %v overlap or are out of order: %s", n.Nodes[i-1].Segment, s.Segment, dump(g.Root))
				}
				if q.iv.covers(c.iv) || c.iv.covers(q.iv) {
					t.Failf("of the siblings %v and %v one covers the other: %s", n.Nodes[i-1].Segment, s.Segment, dump(g.Root))
				}
			}
			walk(s, false)
		}
	}
	walk(g.Root, true)
	if len(seen) != len(acc) {
		for k, s := range acc {
			if !seen[k] {
				t.Failf("accepted segment %v is not in the graph: %s", s.seg(), dump(g.Root))
			}
		}
	}
	if len(acc) > 0 && g.Root.Token != rootIv(g.Root, acc).tok() {
		t.Failf("the root spans %v instead of %v", g.Root.Token, rootIv(g.Root, acc))
	}
}

func rootIv(n *tok.Node, acc map[string]segIv) iv {
	r := iv{1<<63 - 1, -1 << 63}
	for _, s := range acc {
		r.f, r.t = imin(r.f, s.f), imax(r.t, s.t)
	}
	return r
}

func judgeViews(t *T, g *tok.Graph, acc map[string]segIv) {
	b := &strings.Builder{}
	flame(b, "", 1, g.Root)
	if got := g.FlameStack(); got != b.String() {
		t.Failf("FlameStack is %q, expected %q", got, b.String())
	}
	if len(acc) > 0 {
		want := []tok.Segment{}
		leafs(g.Root, &want)
		if segs(g.Leafs()) != segs(want) {
			t.Failf("Leafs are %s, expected %s", segs(g.Leafs()), segs(want))
		}
	}
}

func copyNode(n *tok.Node) *tok.Node {
	c := &tok.Node{Segment: n.Segment}
	for _, s := range n.Nodes {
		c.Nodes = append(c.Nodes, copyNode(s))
	}
	return c
}

// shareNode puts the nodes of g instead of those of its copy that do not hold n.
func shareNode(g, c, n *tok.Node) *tok.Node {
	holds := false
	for _, x := range allNodes(c) {
		holds = holds || x == n
	}
	if !holds {
		return g
	}
	for i := range c.Nodes {
		c.Nodes[i] = shareNode(g.Nodes[i], c.Nodes[i], n)
	}
	return c
}

func allNodes(n *tok.Node) []*tok.Node {
	l := []*tok.Node{n}
	for _, s := range n.Nodes {
		l = append(l, allNodes(s)...)
	}
	return l
}

func sameTree(a, b *tok.Node) bool {
	if a.Info != b.Info || a.Token != b.Token || len(a.Nodes) != len(b.Nodes) {
		return false
	}
	for i := range a.Nodes {
		if !sameTree(a.Nodes[i], b.Nodes[i]) {
			return false
		}
	}
	return true
}

// handTree: nodes may have any range, the same one too.
func (t *T) handTree(d int) *tok.Node {
	f := t.N(4)
	n := &tok.Node{Segment: tok.Segment{Info: t.Str([]string{"", "x", "y"}), Token: mk(f, f+t.N(3))}}
	for i := t.few(2, 6); i > 0 && d > 0; i-- {
		n.Nodes = append(n.Nodes, t.handTree(d-1))
	}
	return n
}

// runC11Hand: equality, leafs and flame stack of trees that no append made.
func runC11Hand(t *T) {
	a := t.handTree(t.In(0, 4))
	b := copyNode(a)
	if t.P(1, 8) {
		b = t.handTree(t.In(0, 2))
	}
	l := allNodes(b)
	for i := t.N(3); i > 0; i-- {
		n := l[t.N(len(l))]
		switch t.N(7) {
		case 0:
			n.Info = t.Str([]string{"", "x", "y"})
		case 6: // a copy of the neighbour
			if z := len(n.Nodes); z > 1 {
				k := t.N(z - 1)
				if t.P(1, 2) {
					n.Nodes[k] = copyNode(n.Nodes[k+1])
				} else {
					n.Nodes[k+1] = copyNode(n.Nodes[k])
				}
			}
		case 1:
			f := t.N(4)
			n.Token = mk(f, f+t.N(3))
		case 2:
			n.Nodes = append(n.Nodes, t.handTree(0))
		case 3:
			if z := len(n.Nodes); z > 0 {
				k := t.N(z)
				n.Nodes = append(n.Nodes[:k:k], n.Nodes[k+1:]...)
			}
		case 4:
			if z := len(n.Nodes); z > 1 {
				k := t.N(z - 1)
				n.Nodes[k], n.Nodes[k+1] = n.Nodes[k+1], n.Nodes[k]
			}
		default: // a child moves down to its neighbour
			if z := len(n.Nodes); z > 1 {
				n.Nodes[0].Nodes = append(n.Nodes[0].Nodes, n.Nodes[z-1])
				n.Nodes = n.Nodes[:z-1]
			}
		}
	}
	t.Notef("trees %s and %s", dump(a), dump(b))
	want := sameTree(a, b)
	if a.Equal(b) != want || b.Equal(a) != want {
		t.Failf("Equal of %s and %s is %v and %v, expected %v", dump(a), dump(b), a.Equal(b), b.Equal(a), want)
	}
	g, h := &tok.Graph{Root: a}, &tok.Graph{Root: b}
	if g.Equal(h) != want || h.Equal(g) != want {
		t.Failf("Equal of the graphs %s and %s, expected %v", dump(a), dump(b), want)
	}
	if want {
		t.Obs("equal trees")
	} else {
		t.Obs("unequal trees")
	}
	judgeViews(t, h, map[string]segIv{"any": {}})
	t.Distinct("hand", dump(a), dump(b))
}

func judgeEqual(t *T, g *tok.Graph) {
	c := &tok.Graph{Root: copyNode(g.Root)}
	if !g.Equal(c) || !c.Equal(g) {
		t.Failf("a graph does not equal its copy: %s", dump(g.Root))
	}
	l := allNodes(c.Root)
	n := l[t.N(len(l))]
	if t.P(1, 2) { // the copy shares all that is not on the way to n
		c.Root = shareNode(g.Root, c.Root, n)
		if !g.Equal(c) || !c.Equal(g) {
			t.Failf("a graph does not equal one that shares nodes with it: %s", dump(g.Root))
		}
	}
	what := ""
	switch t.N(5) {
	case 0:
		n.Info += "x"
		what = "another info"
	case 1:
		n.Token = n.Token.Merge(mk(1<<62+1, 1<<62+2))
		what = "another range"
	case 2:
		n.Nodes = append(n.Nodes, &tok.Node{})
		what = "one node more"
	case 3:
		if len(n.Nodes) == 0 {
			return
		}
		n.Nodes = n.Nodes[:len(n.Nodes)-1]
		what = "one node less"
	default:
		if len(n.Nodes) < 2 {
			return
		}
		n.Nodes[0], n.Nodes[1] = n.Nodes[1], n.Nodes[0]
		what = "another order"
	}
	if g.Equal(c) || c.Equal(g) {
		t.Failf("a graph equals one with %s: %s and %s", what, dump(g.Root), dump(c.Root))
	}
	t.Obs("unequal graphs")
}

func runC11(t *T) {
	f, z := t.In(0, 8), t.In(8, 40)
	n := t.Size(60)
	if t.P(1, 40) {
		z = t.In(100, 2000)
		n = t.In(100, 300)
	}
	if t.P(1, 3) {
		b := t.baseMark()
		f, z = f+b, z+b
	}
	l := []iv{}
	for _, x := range t.laminar(f, z, n, t.P(1, 3)) {
		l = append(l, x)
	}
	if t.P(1, 2) { // clashing ones
		for i := t.In(1, 6); i > 0; i-- {
			x := mkIv(t.In(f-2, z+2), t.In(f-2, z+2))
			if x.f < 0 {
				x.f = 0
			}
			if x.t < x.f {
				x.t = x.f
			}
			at := t.In(0, len(l))
			l = append(l[:at], append([]iv{x}, l[at:]...)...)
		}
	}
	switch t.N(4) { // also ordered arrivals
	case 0:
		for i := 1; i < len(l); i++ {
			for j := i; j > 0 && (l[j].t < l[j-1].t || l[j].t == l[j-1].t && l[j].f > l[j-1].f); j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		t.Obs("inner segments first")
	case 1:
		for i := 1; i < len(l); i++ {
			for j := i; j > 0 && (l[j].f < l[j-1].f || l[j].f == l[j-1].f && l[j].t > l[j-1].t); j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		t.Obs("outer segments first")
	}
	name := t.Str([]string{"root", "root", "", "s0", "1.r;", " "})
	g := tok.NewGraph(name)
	acc := map[string]segIv{}
	order := []tok.Segment{}
	t.Notef("segments %v", l)
	for i, x := range l {
		s := segIv{x, fmt.Sprintf("s%d", i) + oddEnd(i), i}
		order = append(order, s.seg())
		clash := false
		for _, a := range acc {
			if a.iv.clashes(x) {
				clash = true
			}
		}
		before := dump(g.Root)
		rg, ok := g.Append(s.seg())
		if rg != g {
			t.Failf("Append returned another graph")
		}
		if ok == clash {
			t.Failf("appending %v: accepted %v, clash with an accepted segment %v: %s", s.seg(), ok, clash, before)
		}
		if ok {
			acc[s.info] = s
			t.Obs("accepted")
		} else {
			t.Obs("refused")
			if d := dump(g.Root); d != before {
				t.Failf("the refused %v changed the graph from %s to %s", s.seg(), before, d)
			}
		}
		judgeGraph(t, g, acc)
	}
	if g.Root.Info != name {
		t.Failf("the root of the graph %q is named %q", name, g.Root.Info)
	}
	judgeViews(t, g, acc)
	judgeEqual(t, g)
	if b := tok.BuildGraph(name, order); !b.Equal(g) || dump(b.Root) != dump(g.Root) {
		t.Failf("BuildGraph gives %s, appending one by one %s", dump(b.Root), dump(g.Root))
	}
	if len(acc) > 2 {
		t.Distinct(fmt.Sprint(l))
		t.Sample("%v -> %s", l, clip(dump(g.Root), 200))
	}
}

// --------------------------------------------------------------------------- C12

func runC12Sort(t *T) {
	b := 0
	if t.P(1, 3) {
		b = t.baseMark()
	}
	l := t.laminar(b, b+t.In(1, t.tail(60, 3000)+1), t.tail(t.Size(120), 400), t.P(1, 3))
	infos := []string{"a", "b", "c", "d", ""}
	if t.P(1, 3) { // names that are nearly the same
		infos = []string{"a", "A", "aa", "a ", " a", "ab", "AB", "é", "É", "e\u0301", "1", "01", "a\x00", "\xff", "k", "\u212a"}
	} else if t.P(1, 3) {
		infos = nil
		for i := t.few(20, 80); i >= 0; i-- {
			infos = append(infos, fmt.Sprintf("n%d", i)+oddEnd(i))
		}
	}
	in := []tok.Segment{}
	for _, x := range l {
		in = append(in, tok.Segment{Info: t.Str(infos), Token: x.tok()})
	}
	// more equal ranges
	for i := t.Size(60); i > 0 && len(l) > 0; i-- {
		k := t.N(len(l))
		l = append(l, l[k])
		in = append(in, tok.Segment{Info: t.Str(infos), Token: l[k].tok()})
	}
	idx := make([]int, len(l))
	for i := range idx {
		idx[i] = i
	}
	var order []string
	byOrder := t.P(1, 2)
	if byOrder {
		order = append([]string{}, infos...)
		order = append(order, "zz")
		for i := len(order) - 1; i > 0; i-- {
			j := t.N(i + 1)
			order[i], order[j] = order[j], order[i]
		}
		order = order[:t.N(len(order)+1)]
		if len(order) > 1 && t.P(1, 3) { // names that are listed again
			for i := t.few(3, len(order)); i > 0; i-- {
				order = append(order, t.Str(order))
			}
			t.Obs("name listed again")
		}
	}
	rank := func(s string) int {
		res := -1
		for i, o := range order {
			if o == s {
				res = i
			}
		}
		return res
	}
	less := func(a, b int) bool {
		if l[a].f != l[b].f {
			return l[a].f < l[b].f
		}
		if l[a].t != l[b].t {
			return l[a].t > l[b].t
		}
		if byOrder {
			return rank(in[a].Info) < rank(in[b].Info)
		}
		return false
	}
	for i := 1; i < len(idx); i++ {
		for j := i; j > 0 && less(idx[j], idx[j-1]); j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	got := append([]tok.Segment{}, in...)
	t.Notef("segments %s order %q byOrder %v", segs(in), order, byOrder)
	if byOrder {
		tok.SortSegmentsByOrder(got, order)
		t.Obs("sorted by order")
	} else {
		tok.SortSegments(got)
		t.Obs("sorted")
	}
	want := []tok.Segment{}
	for _, i := range idx {
		want = append(want, in[i])
	}
	if segs(got) != segs(want) {
		t.Failf("sorted to %s, expected %s (order %q)", segs(got), segs(want), order)
	}
	for i := 1; i < len(want); i++ {
		if want[i].Token == want[i-1].Token {
			t.Obs("equal ranges")
		} else if want[i-1].Covers(want[i].Token) {
			t.Obs("covering before covered")
		}
	}
	if len(l) > 2 {
		t.Distinct("sort", segs(in), fmt.Sprint(order))
		t.Sample("%s order %q -> %s", clip(segs(in), 100), order, clip(segs(want), 100))
	}
}

func runC12Segmentate(t *T) {
	whole := mkIv(t.In(0, 10), t.In(0, 60))
	if t.P(1, 3) {
		b := t.baseMark()
		whole.f, whole.t = whole.f+b, whole.t+b
	}
	var sca *tok.Scanner
	if t.P(1, 2) {
		whole = iv{0, t.tail(t.Size(80), 3000)}
		sca = tok.NewScanner(strings.Repeat("x", whole.t))
		sca.Move(t.In(0, whole.t))
	}
	info := t.Str([]string{"", "whole", "é"})
	if sca != nil {
		info = ""
	}
	parts := []iv{}
	cur := whole.f
	for i := t.tail(t.Size(20), 500); i > 0; i-- {
		a := cur + t.N(4)
		b := a + t.N(4)
		if t.P(1, 8) {
			b = a
		}
		if b > whole.t {
			break
		}
		parts = append(parts, iv{a, b})
		cur = b
	}
	if t.P(1, 10) { // without gaps to the end, then empty ones
		if t.P(1, 4) {
			for i := 1<<uint(t.In(2, 9)) + t.In(-1, 1) - len(parts); i > 0; i-- {
				b := cur + t.In(1, 2)
				parts = append(parts, iv{cur, b})
				cur = b
			}
		}
		whole.t = cur
		if sca != nil {
			sca = tok.NewScanner(strings.Repeat("x", whole.t))
		}
		for i := t.N(4); i > 0; i-- {
			parts = append(parts, iv{cur, cur})
		}
	}
	if t.P(1, 3) && len(parts) > 0 { // spoil it
		k := t.N(len(parts))
		switch t.N(5) {
		case 0:
			j := t.N(len(parts))
			parts[k], parts[j] = parts[j], parts[k]
		case 1:
			parts[k].t += t.N(4)
		case 2:
			parts[k].f = imax(0, parts[k].f-t.N(4))
		case 3:
			parts = append(parts, iv{whole.t, whole.t + t.N(3)})
		default:
			parts = append([]iv{{imax(0, whole.f-1), whole.f}}, parts...)
		}
	}
	in := []tok.Segment{}
	for i, p := range parts {
		in = append(in, tok.Segment{Info: fmt.Sprintf("p%d", i) + oddEnd(i), Token: p.tok()})
	}
	want := []tok.Segment{}
	ok := true
	cur = whole.f
	for i, p := range parts {
		if p.f < cur || p.t > whole.t {
			ok = false
			break
		}
		if p.f > cur {
			want = append(want, tok.Segment{Info: info, Token: mk(cur, p.f)})
		}
		want = append(want, in[i])
		cur = p.t
	}
	if cur < whole.t {
		want = append(want, tok.Segment{Info: info, Token: mk(cur, whole.t)})
	}
	t.Notef("whole %v parts %s", whole, segs(in))
	orig := segs(in)
	var got []tok.Segment
	var err error
	if sca != nil {
		got, err = sca.Segmentate(in)
		t.Obs("scanner segmented")
	} else {
		got, err = tok.Segment{Info: info, Token: whole.tok()}.Segmentate(in)
		t.Obs("segment segmented")
	}
	if segs(in) != orig {
		t.Failf("the given parts were changed to %s", segs(in))
	}
	if !ok {
		if err == nil {
			t.Failf("parts %s of %v are accepted as %s", segs(in), whole, segs(got))
		}
		t.Obs("parts refused")
		return
	}
	if err != nil {
		t.Failf("parts %s of %v are refused: %v", segs(in), whole, err)
	}
	if segs(got) != segs(want) {
		t.Failf("parts %s of %v give %s, expected %s", segs(in), whole, segs(got), segs(want))
	}
	if len(want) > len(in) && len(in) > 0 {
		t.Obs("gaps filled")
		t.Distinct("seg", fmt.Sprint(whole), segs(in))
	}
}

func init() {
	register(&Prop{ID: "C09", Rule: "all pairs of intervals with bounds 0..6 (made in both marker orders) and random pairs and triples with small, negative and huge bounds; distinct by pair",
		Floors: []string{"clash", "equal", "covers", "touching", "before", "empty", "split"},
		Suites: []Suite{{"all small pairs", 49, 49, runC09Tiny}, {"random", 300000, 10000000, runC09}}})
	register(&Prop{ID: "C11", Rule: "random sequences of nested, disjoint, equal, empty, touching and clashing segments in random, inner-first and outer-first order; the whole tree is judged after every append; non-trivial: more than two accepted segments, distinct by sequence",
		Floors: []string{"giant graph", "accepted", "refused", "inner segments first", "outer segments first", "unequal graphs", "equal trees", "unequal trees"},
		Suites: []Suite{{"appends", 60000, 3000000, runC11}, {"many nodes", 60, 3000, runC11Giant}, {"trees by hand", 20000, 1000000, runC11Hand}}})
	register(&Prop{ID: "C12", Rule: "random laminar segment lists with equal ranges in random order and order lists; random part lists, valid and spoiled; non-trivial: more than two segments or at least one gap, distinct by input",
		Floors: []string{"giant list", "sorted", "sorted by order", "name listed again", "equal ranges", "covering before covered", "scanner segmented", "segment segmented", "parts refused", "gaps filled"},
		Suites: []Suite{{"sort", 100000, 4000000, runC12Sort}, {"segmentate", 100000, 4000000, runC12Segmentate}, {"long lists", 80, 4000, runC12Giant}}})
}
