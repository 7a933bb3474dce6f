package main

import "strings"

// Exhaustive small edits: every template, with every byte (and some runes that
// are rarely seen) put at, or in the place of, each position.

var rareRunes = []string{"\u0085", "\u00a0", "\u00ad", "\u00ff", "\u0100", "\u0130", "\u017f", "\u01c5", "\u02b0", "\u0300", "\u037e", "\u0660", "\u07ff", "\u0800", "\u180e",
	"\u2000", "\u200b", "\u200d", "\u200e", "\u2028", "\u2029", "\u202f", "\u203f", "\u205f", "\u2060", "\u212a", "\u2160", "\u3000", "\ud7ff", "\ue000", "\ufdd0", "\ufe0f", "\ufeff",
	"\uff0d", "\uff10", "\uff1a", "\uff21", "\ufffc", "\ufffd", "\ufffe", "\uffff", "\U00010000", "\U0001d7ce", "\U0001f600", "\U0001ffff", "\U000e0001", "\U000f0000", "\U000fffff", "\U00100000", "\U0010fffe", "\U0010ffff"}

var editPieces = func() []string {
	l := []string{""}
	for b := 0; b < 256; b++ {
		l = append(l, string([]byte{byte(b)}))
	}
	return append(l, rareRunes...)
}()

// editCount is the number of cases of the templates: one per position and kind.
func editCount(l []string) int {
	n := 0
	for _, x := range l {
		n += 2*len(x) + 1
	}
	return n
}

// edits calls f with all the texts of case i.
func edits(l []string, i int, f func(text string)) {
	for _, x := range l {
		n := 2*len(x) + 1
		if i >= n {
			i -= n
			continue
		}
		if i <= len(x) { // put between
			for _, p := range editPieces {
				f(x[:i] + p + x[i:])
			}
		} else { // put in the place of
			i -= len(x) + 1
			for _, p := range editPieces {
				f(x[:i] + p + x[i+1:])
			}
		}
		return
	}
}

var jsonTemplates = []string{`1e+5`, `-1.5E-30`, `0`, `[10,-0.0]`, `"a\n\u12aF\\"`, `{"a":1,"b":{}}`, `true`, `false`, `null`, " [ ] ", "{ }", "[[1],\t\"\"\r\n]", `["\"\/\b\f\r\t"]`}

func runC15Edits(t *T) {
	edits(jsonTemplates, t.idx, func(text string) { t.note = nil; judgeJSON(t, text, true) })
	t.Obs("edited template")
}

var mxtTemplates = []string{"// a -->", "// a -->\nb", "// ab c --> X\nt\n// q -->\nu\n//X d -->\r\ne\n//  f  g   -->  \n\n// h -->\n"}

func runC16Edits(t *T) {
	edits(mxtTemplates, t.idx, func(text string) {
		t.note = nil
		judgeMXTText(t, strings.ToValidUTF8(text, "?"))
	})
	t.Obs("edited template")
}

var luaTemplates = []string{
	"x=0x1A.8p+2 y=3.5e-10 z=.5 w=1. v=0XfE v=7E5", "s='a\\n\\x41\\065\\u{1F600}\\z  b\\'' t=\"\\\"\\\\\"", "l=[==[a]=]b]==] --c\n--[=[d]]\n]=]x=[[]]",
	"local a<const>,b<close> =1,2 a.b[c]=d:e(f){}''", "return a+b-c*d/e//f%g^h#i&j~k|l<<m>>n..o<=p>=q==r~=s<t>u and v or not w", "for i=1,2,3 do break end for k,v in p do end",
	"while a do repeat goto b ::b:: until c end", "if a then elseif b then else end;", "function a.b:c(d,...) return ... end local function f() end", "f{a=1,[b]=2;3,} do return; end",
}

func runC17Edits(t *T) {
	edits(luaTemplates, t.idx, func(text string) { t.note = nil; judgeLuaText(t, text) })
	t.Obs("edited template")
}

var luaWords = strings.Fields("and break do else elseif end false for function goto if in local nil not or repeat return then true until while")

// where a name may be
var luaNamePlaces = []string{"@=1", "x.@=1", "goto @", "local @", "local x,@ =1", "for @=1,2 do end", "for x,@ in y do end", "function @() end", "function x.@() end", "function x:@() end", "local function @() end",
	"function x(@) end", "function x(y,@) end", "local x<@> =1", "x={@=1}", "f(@)", "x=@", "x=1+@", "x:@()", "::@::", "@()", "return @", "if @ then end", "@", "x=@ y=1", "x=-@", "@.x=1", "@:x()", "@'s'", "x=(@)"}

func runC17Words(t *T) {
	w := luaWords[t.idx%len(luaWords)]
	place := luaNamePlaces[t.idx/len(luaWords)]
	for _, v := range []string{w, strings.ToUpper(w), strings.Title(w), w + "x", "x" + w, w + "_", "_" + w, w + "1", w[:len(w)-1], w[1:], w + w, w + " ", " " + w, w + "\n", "--[[x]]" + w + "--[[y]]", w + ".x", w + "()"} {
		t.note = nil
		judgeLuaText(t, strings.Replace(place, "@", v, -1))
	}
	t.Obs("keyword for a name")
}

// sequences counts the sequences of up to max atoms of n.
func sequences(n, max int) int {
	r := 0
	for i := 0; i <= max; i++ {
		r += pow(n, i)
	}
	return r
}

func sequence(atoms []string, i int, sep string) string {
	l := []string{}
	for i > 0 {
		i--
		l = append(l, atoms[i%len(atoms)])
		i /= len(atoms)
	}
	return strings.Join(l, sep)
}

var mxtTiny = []string{"//", "/", " ", "a", "X", "-->", "-", "\n", "\r\n", "\r"}
var mxtHeads = []string{"", "// a -->", "// a --> X", "// a --> X\nt", "// a -->\n", "// a"}

func runC16Tiny(t *T) {
	text := mxtHeads[t.idx%len(mxtHeads)] + sequence(mxtTiny, t.idx/len(mxtHeads), "")
	judgeMXTText(t, text)
	t.Obs("tiny text")
}

var luaTiny = []string{"x", "1", "=", "(", ")", "{", "}", "[", "]", ",", ";", ".", ":", "::", "..", "...", "-", "not", "#", "<", ">", "return", "local", "function", "end", "do", "while", "'s'", "goto", "break", "if", "then", "else", "repeat", "until", "for", "in", "[[", "]]", "--", "nil"}

func runC17Tiny(t *T) {
	judgeLuaText(t, sequence(luaTiny, t.idx, []string{" ", ""}[t.N(2)]))
	t.Obs("tiny text")
}

// Exhaustive edits of the parts: every run of up to four tokens of a template
// left out, repeated, or put at any other place (with or without its old one).

const runTokens = 4

func runEditCount(l [][]string) int {
	n := 0
	for _, x := range l {
		n += len(x)
	}
	return n
}

// runEdits calls f with all the token lists of case i: the runs that begin at one token.
func runEdits(l [][]string, i int, f func(toks []string)) {
	for _, x := range l {
		if i >= len(x) {
			i -= len(x)
			continue
		}
		for z := i + 1; z <= len(x) && z <= i+runTokens; z++ {
			part := x[i:z]
			rest := append(append([]string{}, x[:i]...), x[z:]...)
			f(rest)
			for p := 0; p <= len(x); p++ {
				f(append(append(append([]string{}, x[:p]...), part...), x[p:]...))
			}
			f(append(append(append(append([]string{}, x[:z]...), part...), part...), x[z:]...))
			for p := 0; p <= len(rest); p++ {
				f(append(append(append([]string{}, rest[:p]...), part...), rest[p:]...))
			}
		}
		return
	}
}

func fieldsOf(l ...string) [][]string {
	r := [][]string{}
	for _, x := range l {
		r = append(r, strings.Fields(x))
	}
	return r
}

var luaRunTemplates = fieldsOf(
	"for i = 1 , 2 , 3 do end", "for k , v in a , b do f ( ) end", "local a < const > , b = 1 , 2", "local a , b < close >", "a , b . c [ 1 ] = d , e", "a . b : c ( d , e )", "f { a = 1 , [ b ] = 2 ; 3 , }",
	"while a do break end", "repeat a ( ) until b", "if a then b ( ) elseif c then d ( ) else e ( ) end", "function a . b : c ( d , ... ) return ... end", "local function f ( a , b ) return a , b ; end",
	"goto a ; :: a ::", "return function ( ... ) end , - not # a ^ ~ b .. c", "x = ( a ) . b ( ) [ c ] 's' { }", "do local x ; end ; return", "x = { } y = { 1 } z = { a = b ; }", "return nil , true , false , ... , 0x1p4 , [[s]]")

func runC17Runs(t *T) {
	runEdits(luaRunTemplates, t.idx, func(toks []string) {
		t.note = nil
		judgeLuaText(t, strings.Join(toks, " "))
	})
	t.Obs("moved run of tokens")
}

var jsonRunTemplates = fieldsOf(`{ "a" : 1 , "b" : [ 2 , true ] , "c" : { } }`, `[ [ ] , { "a" : null } , "b" , false , -1.5e3 ]`, `[ { "a" : { "b" : [ 1 ] } } , [ [ 2 ] ] ]`)

func runC15Runs(t *T) {
	runEdits(jsonRunTemplates, t.idx, func(toks []string) {
		for _, sep := range []string{" ", ""} {
			t.note = nil
			judgeJSON(t, strings.Join(toks, sep), true)
		}
	})
	t.Obs("moved run of tokens")
}

var mxtRunTemplates = [][]string{
	{"// a -->\n", "b\n", "// c -->\n", "// d --> X\n", "// e -->\n", "//X f -->\n", "\n", "g"},
	{"// a", " -->", " X", "\r\n", "t\n", "//X", " b", " -->", "\n", "// c -->"},
	{"// a --> #\n", "//# b --> ##\n", "// c --> #\n", "//## d -->\n", "x\n", "// e --> #\n", "//# f --> #\n"},
}

func runC16Runs(t *T) {
	runEdits(mxtRunTemplates, t.idx, func(toks []string) {
		t.note = nil
		judgeMXTText(t, strings.Join(toks, ""))
	})
	t.Obs("moved run of tokens")
}
