package main

import (
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// modelBool gives the length of the spelling at the start of s (0: none).
func modelBool(s, format string) (int, bool) {
	var l []string
	switch format {
	case "", "*":
		l = []string{"true", "True", "TRUE", "false", "False", "FALSE"}
	case "l":
		l = []string{"true", "false"}
	case "U":
		l = []string{"TRUE", "FALSE"}
	case "Cc":
		l = []string{"True", "False"}
	}
	for _, x := range l {
		if strings.HasPrefix(s, x) {
			return len(x), strings.ToLower(x) == "true"
		}
	}
	return 0, false
}

func validBase(b int) bool { return b == 8 || b == 10 || b == 16 }
func validBits(n int) bool { return n == 8 || n == 16 || n == 32 || n == 64 }

func digitVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return 99
}

// modelInt gives the consumed length (0: no number) and the value with
// arbitrary precision arithmetic.
func modelInt(s string, base, bits int, signed bool) (int, *big.Int) {
	min, max := new(big.Int), new(big.Int)
	if signed {
		min.Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
		max.Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)), big.NewInt(1))
	} else {
		max.Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	}
	n := 0
	neg := false
	if signed && s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		n = 1
	}
	sign := n
	val := new(big.Int)
	for n < len(s) {
		d := digitVal(s[n])
		if d >= base {
			break
		}
		next := new(big.Int).Mul(val, big.NewInt(int64(base)))
		if neg {
			next.Sub(next, big.NewInt(int64(d)))
		} else {
			next.Add(next, big.NewInt(int64(d)))
		}
		if next.Cmp(min) < 0 || next.Cmp(max) > 0 {
			break
		}
		val = next
		n++
	}
	if n == sign {
		return 0, val
	}
	return n, val
}

func (t *T) numText(base, bits int) string {
	var b strings.Builder
	switch t.N(6) {
	case 0, 1:
		b.WriteString(t.Str([]string{"-", "+"}))
	case 2:
		if t.P(1, 4) {
			b.WriteString(t.Str([]string{"--", "+-", "- ", "\u2212", "+"}))
		}
	}
	if t.P(1, 5) {
		b.WriteString(strings.Repeat("0", t.Size(80)))
	}
	digits := "0123456789abcdefABCDEF"
	nd := base
	if base == 16 {
		nd = 22
	}
	if nd <= 0 || nd > 22 {
		nd = 10
	}
	switch t.N(7) {
	case 0, 1, 2, 3: // around a power of two
		v := new(big.Int).Lsh(big.NewInt(1), uint([]int{3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100}[t.N(11)]))
		if t.P(2, 3) && validBits(bits) {
			v = new(big.Int).Lsh(big.NewInt(1), uint(bits-t.N(2)))
		}
		v.Add(v, big.NewInt(int64(t.In(-3, 3))))
		bb := base
		if !validBase(bb) {
			bb = 10
		}
		s := v.Text(bb)
		if t.P(1, 2) {
			s = strings.ToUpper(s)
		}
		switch t.N(4) {
		case 0: // change the last digits
			if len(s) > 1 {
				s = s[:len(s)-1] + string(digits[t.N(nd)])
			}
		case 1:
			s += string(digits[t.N(nd)])
		case 2:
			s = s[:len(s)-1]
		}
		b.WriteString(s)
	case 4:
		for i := t.In(1, 30); i > 0; i-- {
			b.WriteByte(digits[t.N(nd)])
		}
	case 5:
		for i := t.In(0, 4); i > 0; i-- {
			b.WriteByte(digits[t.N(nd)])
		}
	default:
		b.WriteString(t.Text(5))
	}
	switch t.N(4) {
	case 0:
		b.WriteString(t.atom())
	case 1:
		b.WriteByte(digits[t.N(22)])
	case 2:
		b.WriteString(t.Str([]string{"8", "9", "a", "g", "٣", "\xff", ".", "x", "_1"}))
	}
	return b.String()
}

func runNum(t *T) {
	base, bits := t.drawBaseBits()
	text := t.numText(base, bits)
	pos := 0
	if t.P(1, 3) {
		pre := t.atom()
		text = pre + text
		pos = len(pre)
	}
	signed := t.P(1, 2)
	asReader := t.P(1, 2)
	t.Notef("ReadInt/Uint base %d bits %d signed %v reader %v at %d of %q", base, bits, signed, asReader, pos, text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	var got *big.Int
	var err error
	if signed {
		var v int64
		if asReader {
			r := tok.Int(base, bits)
			if t.P(1, 2) { // leave a value of an earlier read in the reader
				tok.NewScanner("77").Use(r)
			}
			err = s.Use(r)
			v = r.Value
		} else {
			v, err = s.ReadInt(base, bits)
		}
		got = big.NewInt(v)
	} else {
		var v uint64
		if asReader {
			r := tok.Uint(base, bits)
			if t.P(1, 2) {
				tok.NewScanner("77").Use(r)
			}
			err = s.Use(r)
			v = r.Value
		} else {
			v, err = s.ReadUint(base, bits)
		}
		got = new(big.Int).SetUint64(v)
	}
	np := int(s.Mark())
	if !validBase(base) || !validBits(bits) {
		t.Obs("unsupported refused")
		if err == nil {
			t.Failf("base %d, bit size %d accepted on %q", base, bits, text)
		}
		if np != pos {
			t.Failf("base %d, bit size %d: failed but moved from %d to %d", base, bits, pos, np)
		}
		return
	}
	n, want := modelInt(text[pos:], base, bits, signed)
	if n == 0 {
		t.Obs("no number")
		if err == nil || np != pos {
			t.Failf("no number in %q at %d: got %v, error %v, position %d", text, pos, got, err, np)
		}
		return
	}
	if err != nil {
		t.Failf("%q at %d: error %v, expected %v", text, pos, err, want)
	}
	if got.Cmp(want) != 0 || np != pos+n {
		t.Failf("%q at %d: got %v and position %d, expected %v and %d (base %d, %d bits, signed %v)", text, pos, got, np, want, pos+n, base, bits, signed)
	}
	t.Obs(fmt.Sprintf("number base %d bits %d signed %v", base, bits, signed))
	if pos+n < len(text) && digitVal(text[pos+n]) < base {
		t.Obs("stopped at the limit")
	}
	if want.Sign() < 0 {
		t.Obs("negative")
	}
	t.Distinct(text, fmt.Sprint(pos, base, bits, signed))
	t.Sample("%q at %d base %d bits %d signed %v -> %v", clip(text, 60), pos, base, bits, signed, want)
}

func runBool(t *T) {
	f := t.Str([]string{"", "*", "l", "U", "Cc"})
	if t.P(1, 12) {
		f = t.Str([]string{"L", "u", "x", "cC", "true", " ", "**", "lU"})
	}
	words := []string{"true", "false", "True", "False", "TRUE", "FALSE", "tRUE", "TrUe", "fALSE", "tru", "fals", "t", "f", "T", "F", "1", "0", "yes", "trueX", "falsetrue", "ﬀalse", "ſ"}
	text := t.Str(words)
	if t.P(1, 3) {
		text += t.atom()
	}
	if t.P(1, 6) {
		text = t.swapCase(text)
	}
	pos := 0
	if t.P(1, 3) {
		pre := t.atom()
		text, pos = pre+text, len(pre)
	}
	t.Notef("bool %q at %d of %q", f, pos, text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	var v bool
	var err error
	if t.P(1, 2) {
		r := tok.Bool(f)
		if t.P(1, 2) {
			r.Value = true
		}
		err = s.Use(r)
		v = r.Value
	} else {
		v, err = s.ReadBool(f)
	}
	np := int(s.Mark())
	n, want := modelBool(text[pos:], f)
	valid := f == "" || f == "*" || f == "l" || f == "U" || f == "Cc"
	if !valid || n == 0 {
		if err == nil || np != pos {
			t.Failf("format %q on %q at %d: got %v, error %v, position %d, expected a failure", f, text, pos, v, err, np)
		}
		t.Obs("bool refused")
		return
	}
	if err != nil || v != want || np != pos+n {
		t.Failf("format %q on %q at %d: got %v, error %v, position %d, expected %v and %d", f, text, pos, v, err, np, want, pos+n)
	}
	t.Obs("bool read")
	t.Distinct("bool", f, text)
}

func runRune(t *T) {
	text := t.Text(12)
	pos := t.Position(text)
	s := tok.NewScanner(text)
	s.ToMarker(tok.Marker(pos))
	t.Notef("text %q", text)
	for i := 0; i < 6; i++ {
		p := int(s.Mark())
		var r, want rune
		var w int
		var err error
		dir := 1
		if t.P(1, 2) {
			t.Notef("ReadRune at %d", p)
			r, err = s.ReadRune()
			want, w = decFwd(text[p:])
		} else {
			t.Notef("RevReadRune at %d", p)
			dir = -1
			r, err = s.RevReadRune()
			want, w = decBack(text[:p])
		}
		np := int(s.Mark())
		if w == 0 || (w == 1 && want == utf8.RuneError) {
			if err == nil || np != p {
				t.Failf("direction %d at %d of %q: got %U, error %v, position %d, expected a failure", dir, p, text, r, err, np)
			}
			t.Obs("rune refused")
			if w == 1 {
				t.Obs("invalid byte refused")
			}
			s.Move(dir)
			continue
		}
		if err != nil || r != want || np != p+dir*w {
			t.Failf("direction %d at %d of %q: got %U, error %v, position %d, expected %U and %d", dir, p, text, r, err, np, want, p+dir*w)
		}
		if want == utf8.RuneError {
			t.Obs("U+FFFD read")
		}
		t.Obs("rune read")
		t.Distinct("rune", text, fmt.Sprint(p, dir))
	}
}

func init() {
	register(&Prop{ID: "C07",
		Rule:   "digit strings around every type limit (sign, leading zeros, letter case, one digit more, less or changed, following text) for all bases and sizes, all bool spellings and near spellings for all formats, runes in both directions; compared with arbitrary precision arithmetic; non-trivial: a value is read, distinct by text, position and type",
		Floors: []string{"unsupported refused", "no number", "stopped at the limit", "negative", "bool read", "bool refused", "rune read", "rune refused", "invalid byte refused", "U+FFFD read"},
		Suites: []Suite{
			{"pinned", 1, 1, func(t *T) {
				for _, c := range []struct {
					text   string
					signed bool
					n      int
					val    string
				}{
					{"9223372036854775808", true, 18, "922337203685477580"},
					{"-9223372036854775809", true, 19, "-922337203685477580"},
					{"18446744073709551616", false, 19, "1844674407370955161"},
					{"99999999999999999999999999", false, 19, "9999999999999999999"},
				} {
					s := tok.NewScanner(c.text)
					got := ""
					if c.signed {
						v, err := s.ReadInt(10, 64)
						got = fmt.Sprint(v, err)
					} else {
						v, err := s.ReadUint(10, 64)
						got = fmt.Sprint(v, err)
					}
					t.Notef("pinned %s", c.text)
					if got != c.val+" <nil>" || int(s.Mark()) != c.n {
						t.Failf("%s: got %s at %d", c.text, got, s.Mark())
					}
				}
			}},
			{"numbers", 400000, 20000000, runNum},
			{"bools", 30000, 1000000, runBool},
			{"runes", 60000, 3000000, runRune},
		}})
}
