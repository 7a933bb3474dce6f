package main

import "github.com/aiq/tok"

// Grammars with one field tag each.

const numTags = 71

func tagShape(i int) shape {
	l := &lister{}
	var g tok.Grammar
	var r, next *tok.Rule
	switch i {
	case 0:
		v := &struct {
			*lister
			A tok.Rule `name:"a "`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 1:
		v := &struct {
			*lister
			A tok.Rule `name:" a"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 2:
		v := &struct {
			*lister
			A tok.Rule `name:" a "`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 3:
		v := &struct {
			*lister
			A tok.Rule `name:"a,b"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 4:
		v := &struct {
			*lister
			A tok.Rule `name:"a,omitempty"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 5:
		v := &struct {
			*lister
			A tok.Rule `name:"-"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 6:
		v := &struct {
			*lister
			A tok.Rule `name:"a b"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 7:
		v := &struct {
			*lister
			A tok.Rule `name:"1"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 8:
		v := &struct {
			*lister
			A tok.Rule `name:"1a"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 9:
		v := &struct {
			*lister
			A tok.Rule `name:"ä"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 10:
		v := &struct {
			*lister
			A tok.Rule `name:"aä"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 11:
		v := &struct {
			*lister
			A tok.Rule `name:"a\n"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 12:
		v := &struct {
			*lister
			A tok.Rule `name:"\ta"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 13:
		v := &struct {
			*lister
			A tok.Rule `name:"_"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 14:
		v := &struct {
			*lister
			A tok.Rule `name:"_a"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 15:
		v := &struct {
			*lister
			A tok.Rule `name:"+a"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 16:
		v := &struct {
			*lister
			A tok.Rule `name:".a"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 17:
		v := &struct {
			*lister
			A tok.Rule `name:"a/"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 18:
		v := &struct {
			*lister
			A tok.Rule `name:"a:b"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 19:
		v := &struct {
			*lister
			A tok.Rule `name:"a;b"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 20:
		v := &struct {
			*lister
			A tok.Rule `name:"\u212a"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 21:
		v := &struct {
			*lister
			A tok.Rule `name:"a\u017f"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 22:
		v := &struct {
			*lister
			A tok.Rule `name:"\uff41"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 23:
		v := &struct {
			*lister
			A tok.Rule `name:"a\x00"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 24:
		v := &struct {
			*lister
			A tok.Rule `name:"a\xff"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 25:
		v := &struct {
			*lister
			A tok.Rule `name:"a'"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 26:
		v := &struct {
			*lister
			A tok.Rule `name:"a\""`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 27:
		v := &struct {
			*lister
			A tok.Rule `name:"a+"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 28:
		v := &struct {
			*lister
			A tok.Rule `name:"a-"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 29:
		v := &struct {
			*lister
			A tok.Rule `name:"a."`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 30:
		v := &struct {
			*lister
			A tok.Rule `name:"a_"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 31:
		v := &struct {
			*lister
			A tok.Rule `name:"a+-._+-._"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 32:
		v := &struct {
			*lister
			A tok.Rule `name:"Z9"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 33:
		v := &struct {
			*lister
			A tok.Rule `name:"z"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 34:
		v := &struct {
			*lister
			A tok.Rule `name:"A"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 35:
		v := &struct {
			*lister
			A tok.Rule `name:"Name"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 36:
		v := &struct {
			*lister
			A tok.Rule `name:"omitempty"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 37:
		v := &struct {
			*lister
			A tok.Rule `name:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 38:
		v := &struct {
			*lister
			A tok.Rule `name:"yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy "`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 39:
		v := &struct {
			*lister
			A tok.Rule `name:"a" json:"b"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 40:
		v := &struct {
			*lister
			A tok.Rule `json:"b" name:"a"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 41:
		v := &struct {
			*lister
			A tok.Rule `json:"b"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 42:
		v := &struct {
			*lister
			A tok.Rule `Name:"b"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 43:
		v := &struct {
			*lister
			A tok.Rule `NAME:"1"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 44:
		v := &struct {
			*lister
			A tok.Rule `names:"1"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 45:
		v := &struct {
			*lister
			A tok.Rule `name:"a" name:"1"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 46:
		v := &struct {
			*lister
			A tok.Rule `name:x`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 47:
		v := &struct {
			*lister
			A tok.Rule `name: "a"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 48:
		v := &struct {
			*lister
			A tok.Rule ``
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 49:
		v := &struct {
			*lister
			A tok.Rule `name:""`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 50:
		v := &struct {
			*lister
			A tok.Rule `json:"name:\"q\""`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 51:
		v := &struct {
			*lister
			A tok.Rule `x:"1" name:"b2" y:"!"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 52:
		v := &struct {
			*lister
			A tok.Rule `name:"a{}"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 53:
		v := &struct {
			*lister
			A tok.Rule `name:"a()"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 54:
		v := &struct {
			*lister
			A tok.Rule `name:"a*"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 55:
		v := &struct {
			*lister
			A tok.Rule `name:"a="`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 56:
		v := &struct {
			*lister
			A tok.Rule `name:"a@"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 57:
		v := &struct {
			*lister
			A tok.Rule `name:"a["`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 58:
		v := &struct {
			*lister
			A tok.Rule `name:"a\u0060"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 59:
		v := &struct {
			*lister
			A tok.Rule `name:"a~"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 60:
		v := &struct {
			*lister
			A tok.Rule `name:"a^"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 61:
		v := &struct {
			*lister
			A tok.Rule `name:"a,"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 62:
		v := &struct {
			*lister
			A tok.Rule `name:"a\\"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 63:
		v := &struct {
			*lister
			A tok.Rule `name:"%s"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 64:
		v := &struct {
			*lister
			A tok.Rule `name:"a%"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 65:
		v := &struct {
			*lister
			A tok.Rule `name:"::INVALID-READER::"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 66:
		v := &struct {
			*lister
			A tok.Rule `name:"true"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 67:
		v := &struct {
			*lister
			A tok.Rule `name:"0"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 68:
		v := &struct {
			*lister
			A tok.Rule `name:"a0"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 69:
		v := &struct {
			*lister
			A tok.Rule `name:"a.0"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	case 70:
		v := &struct {
			*lister
			A tok.Rule `name:"A-Z"`
			B tok.Rule `name:"bb"`
		}{lister: l}
		g, r, next = v, &v.A, &v.B
	}
	tag := tagNames[i]
	sh := shape{g: g, rules: []*tok.Rule{r, next}, names: []string{tag, "bb"}, ok: tag == "" || ruleNameLen(tag) == len(tag)}
	sh.rest = func() bool { return sh.ok || r.Name != tag }
	l.list = func() []*tok.Rule { return sh.rules }
	return sh
}

// what the tags say
var tagNames = []string{
	"a ",
	" a",
	" a ",
	"a,b",
	"a,omitempty",
	"-",
	"a b",
	"1",
	"1a",
	"ä",
	"aä",
	"a\n",
	"\ta",
	"_",
	"_a",
	"+a",
	".a",
	"a/",
	"a:b",
	"a;b",
	"\u212a",
	"a\u017f",
	"\uff41",
	"a\x00",
	"a\xff",
	"a'",
	"a\"",
	"a+",
	"a-",
	"a.",
	"a_",
	"a+-._+-._",
	"Z9",
	"z",
	"A",
	"Name",
	"omitempty",
	"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",
	"yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy ",
	"a",
	"a",
	"",
	"",
	"",
	"",
	"a",
	"",
	"",
	"",
	"",
	"",
	"b2",
	"a{}",
	"a()",
	"a*",
	"a=",
	"a@",
	"a[",
	"a\u0060",
	"a~",
	"a^",
	"a,",
	"a\\",
	"%s",
	"a%",
	"::INVALID-READER::",
	"true",
	"0",
	"a0",
	"a.0",
	"A-Z",
}
