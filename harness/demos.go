package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ------------------------------------------------------- C23: the demo programs

// flameOf is the containment tree of non-empty ranges, no two of them equal.
func flameOf(name string, spans []span) string {
	l := append([]span{}, spans...)
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].from != l[j].from {
			return l[i].from < l[j].from
		}
		return l[i].to > l[j].to
	})
	root := span{info: name}
	for i, s := range l {
		if i == 0 {
			root.from, root.to = s.from, s.to
		}
		root.to = imax(root.to, s.to)
	}
	type open struct {
		span
		path string
		kids int
	}
	label := func(s span) string { return fmt.Sprintf("%s[%d-%d)", s.info, s.from, s.to) }
	b := &strings.Builder{}
	stack := []open{{root, "1." + label(root), 0}}
	fmt.Fprintf(b, "%s %d\n", stack[0].path, root.to-root.from)
	for _, s := range l {
		for len(stack) > 1 && stack[len(stack)-1].to <= s.from {
			stack = stack[:len(stack)-1]
		}
		top := &stack[len(stack)-1]
		top.kids++
		path := fmt.Sprintf("%s;%d.%s", top.path, top.kids, label(s))
		fmt.Fprintf(b, "%s %d\n", path, s.to-s.from)
		stack = append(stack, open{s, path, 0})
	}
	return b.String()
}

// demo runs one of the programs in a directory of its own.
func demo(t *T, name string, args ...string) (string, string, bool) {
	bin := filepath.Join(os.Getenv("VERIF_DEMOS"), name)
	cmd := exec.Command(bin, args...)
	cmd.Dir = demoDir()
	cmd.Env = []string{"GOMAXPROCS=1"}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			die(2, "%v", err)
		}
	}
	if strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "fatal error:") {
		t.Failf("%s %q crashes: %s", name, args, clip(se.String(), 800))
	}
	return so.String(), se.String(), err == nil
}

var demoDirPath string

func demoDir() string {
	if demoDirPath == "" {
		d, err := os.MkdirTemp(os.Getenv("VERIF_DEMOS"), "files")
		if err != nil {
			die(2, "%v", err)
		}
		demoDirPath = d
		os.Mkdir(filepath.Join(d, "sub"), 0o755)
	}
	return demoDirPath
}

func demoFile(name, text string) {
	if err := os.WriteFile(filepath.Join(demoDir(), name), []byte(text), 0o644); err != nil {
		die(2, "%v", err)
	}
}

// demoName draws a file name, often an odd one.
func (t *T) demoName(ext string) string {
	name := t.Str([]string{"a", "x y", "ü", "1"}) + t.Str([]string{"", "." + ext, "." + ext})
	if t.P(1, 2) {
		name = t.Str([]string{"%d", "%s%n." + ext, "100%", "a%20b", "-", "--", "-h", "--help", "-x." + ext, "a;b", "a\nb", "a\tb", "\"q\"", "'", "\\", "a[0-3)", "1.a[0-3) 3", "*." + ext, "$HOME", "~", "#", "&", "{}", "日本." + ext, "\xff\xfe", " ", " a", "a ", "A." + ext, "." + ext, "...", "a.b.c", "json", "null", "a\r",
			strings.Repeat("n", 200), "sub/a", "./a", "sub/../a." + ext, "sub//b", "./sub/./c"})
		t.Obs("odd file name")
	}
	return name
}

func runC23JSON(t *T) {
	text := t.jsonText(t.Size(120) + 2)
	switch t.N(4) {
	case 0:
		text = t.jsonMutate(text)
	case 1:
		text = t.jsonDeep(60)
	}
	if t.P(1, 10) { // in front of it or behind it
		odd := t.Str([]string{"\ufeff", "\x00", "\v", "\f", "\u00a0", "#!x\n", "//c\n", "\xff\xfe", "\r", "\n\n", ",", ";", "x", "[", "\"", "\x1a", "\u2028", "1", " 1", "null", "{}", "-"})
		if t.P(1, 2) {
			text = odd + text
		} else {
			text += odd
		}
		t.Obs("odd begin or end")
	}
	if t.P(1, 40) { // a large file
		n := 1<<uint(t.In(9, 17)) + t.In(-3, 3)
		switch t.N(4) {
		case 0:
			text = strings.Repeat(t.Str([]string{" ", "\n", "\r\n", "\t"}), n) + text
		case 1:
			text = "[" + text + strings.Repeat(" ", n) + "]"
		case 2:
			text = "[\"" + strings.Repeat(t.Str([]string{"x", "é", "\\n"}), n) + "\"," + text + "]"
		default:
			text = "{\"a\":[" + strings.Repeat("1,", imin(n, 1500)) + text + "]}"
		}
		if len(text) > 1<<16 {
			t.Obs("file of more than 64 KiB")
		}
	}
	name := t.demoName("json")
	t.Notef("%s with %q", name, text)
	demoFile(name, text)
	out, errs, ok := demo(t, "json-stack", name)
	os.Remove(filepath.Join(demoDir(), name))
	ref := &jsonRef{s: text}
	end := ref.element(0)
	if end < 0 {
		if ok || out != "" {
			t.Failf("json-stack takes %q: %q", text, out)
		}
		if errs == "" {
			t.Failf("json-stack says nothing about %q", text)
		}
		t.Obs("JSON file refused")
		t.Distinct(text)
		return
	}
	if !ok {
		t.Failf("json-stack refuses %q: %s", text, errs)
	}
	if want := flameOf(name, ref.spans); out != want {
		t.Failf("json-stack prints %q for %q, expected %q", clip(out, 600), text, clip(want, 600))
	}
	t.Obs("JSON stack judged")
	t.ObsN("lines judged", strings.Count(out, "\n"))
	if len(ref.spans) > 2 {
		t.Distinct(text)
	}
}

func runC23Lua(t *T) {
	p := t.luaProgram(2, t.In(4, 40), 3)
	name := t.demoName("lua")
	text := p.text
	shift, max := 0, 300000
	if t.P(1, 30) { // a large file
		n := 1<<uint(t.In(9, 17)) + t.In(-3, 3)
		pad := strings.Repeat(t.Str([]string{" ", "\n"}), n)
		if t.P(1, 2) {
			pad = "--" + strings.Repeat("x", n) + "\n"
		}
		text = pad + text
		shift, max = len(pad), 4000000
	}
	t.Notef("%s with %q", name, text)
	g := grammar.Lua()
	s := tok.NewScanner(text)
	basket := s.NewBasketFor(g)
	tr := &stepTracker{max: max}
	s.Tracker = stepBasket{tr, basket}
	err, done := useLua(s, g, tr)
	if !done {
		t.Obs("skipped (too many steps)")
		return
	}
	if err != nil || !s.AtEnd() {
		return // judged by C17
	}
	demoFile(name, text)
	out, errs, ok := demo(t, "full-lua-stack", name)
	os.Remove(filepath.Join(demoDir(), name))
	if !ok {
		t.Failf("full-lua-stack refuses %q: %s", text, errs)
	}
	want := tok.BuildGraph(name, basket.Picked()).FlameStack()
	if out != want {
		t.Failf("full-lua-stack prints %q for %q, expected %q", clip(out, 600), text, clip(want, 600))
	}
	// the tokens are part of the stack
	for i, k := range p.toks {
		if k.k == lkName {
			if l := fmt.Sprintf("%s[%d-%d)", g.Name.Name, p.from[i]+shift, p.to[i]+shift); !strings.Contains(out, l) {
				t.Failf("full-lua-stack does not show %s for %q: %q", l, text, clip(out, 600))
			}
		}
	}
	if len(text) > 1<<16 {
		t.Obs("Lua file of more than 64 KiB")
	}
	t.Obs("Lua stack judged")
	t.ObsN("lines judged", strings.Count(out, "\n"))
	t.Distinct(text)
}

func runC23Args(t *T) {
	name := t.Str([]string{"json-stack", "full-lua-stack"})
	demoFile("ok", "[1]")
	demoFile("ok2", "x=1")
	args := [][]string{{}, {"missing"}, {"."}, {"ok", "ok"}, {"ok2", "ok2"}, {""}, {"ok", ""}, {"", "ok"}, {"ok", "missing"}, {"sub"}, {"ok/"}, {"ok/ok"}, {"-h"}, {"--help"}, {"-"}, {"ok", "ok", "ok"}}[t.N(16)]
	out, errs, ok := demo(t, name, args...)
	if ok || out != "" || errs == "" {
		t.Failf("%s %q: works %v, prints %q and %q", name, args, ok, out, errs)
	}
	t.Obs("bad arguments refused")
	t.Distinct(name, fmt.Sprint(args))
}

func init() {
	register(&Prop{ID: "C23", Rule: "the two demo programs, built from the tree, run on generated JSON documents (valid, mutated, deep), Lua programs and bad arguments; distinct by file content",
		Floors: []string{"JSON stack judged", "JSON file refused", "Lua stack judged", "bad arguments refused", "odd file name", "odd begin or end", "file of more than 64 KiB", "Lua file of more than 64 KiB"},
		Assume: []string{"harness/gjson.go finds the elements of a JSON text", "the expected Lua stack is the graph of the picks of the library (judged by C11 and C17)"},
		Suites: []Suite{{"json-stack", 4000, 60000, runC23JSON}, {"full-lua-stack", 1200, 20000, runC23Lua}, {"arguments", 120, 800, runC23Args}}})
}
