package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"pgregory.net/rapid"
)

// srcCase is a generated source text and the tree it has to give.
type srcCase struct {
	Kind  string   `json:"kind"` // program or unit
	Mode  string   `json:"mode"`
	Text  string   `json:"text"`
	Want  string   `json:"want"`
	Feats []string `json:"feats,omitempty"`
	Toks  int      `json:"toks"`
}

const progPath, unitPath = "main.dpr", "unit1.pas"

func parseProgramText(text string) (*ast.Program, error) {
	rs := []rune(text)
	p := parser.NewProgramParser(parser.NewProgramContext(progPath))
	p.SetText(&rs)
	p.NextToken()
	return p.ParseProgram()
}

func parseUnitText(text string) (*ast.Unit, error) {
	rs := []rune(text)
	p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext(progPath), unitPath))
	p.SetText(&rs)
	p.NextToken()
	return p.ParseUnit()
}

func parseText(kind, text string) (any, error) {
	if kind == "unit" {
		u, err := parseUnitText(text)
		if err == nil && u == nil {
			return nil, fmt.Errorf("no error, but no unit either")
		}
		return u, err
	}
	p, err := parseProgramText(text)
	if err == nil && p == nil {
		return nil, fmt.Errorf("no error, but no program either")
	}
	return p, err
}

func ownership(roots ...any) map[*ast.Ident]int {
	own := map[*ast.Ident]int{}
	for i, r := range roots {
		for _, o := range ownedIdents(r) {
			own[o.ident] = i
		}
	}
	return own
}

func dumpRoot(root any, mode string) string {
	d := &dumper{mode: mode}
	if mode == modeRefs {
		d.own = ownership(root)
	}
	switch r := root.(type) {
	case *ast.Program:
		return d.program(r)
	case *ast.Unit:
		return d.unit(r)
	}
	return fmt.Sprintf("<%T>", root)
}

// diffErr describes the first difference of two dumps.
func diffErr(what, got, want string) error {
	if got == want {
		return nil
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string {
		a, b := i-60, i+120
		if a < 0 {
			a = 0
		}
		if b > len(s) {
			b = len(s)
		}
		return strings.ToValidUTF8(s[a:b], "?")
	}
	return fmt.Errorf("%s differs at offset %d:\n   got: ...%s...\n  want: ...%s...", what, i, cut(got), cut(want))
}

func checkSrc(c *srcCase) error {
	root, err := parseText(c.Kind, c.Text)
	if err != nil {
		return fmt.Errorf("a correct %s is rejected: %v", c.Kind, err)
	}
	return diffErr("the tree", dumpRoot(root, c.Mode), c.Want)
}

type profile struct {
	fuel  int
	setup func(g *G)
	units int // of 10 cases, how many are units
}

func genSrc(mode string, p profile) func(t *rapid.T) srcCase {
	return func(t *rapid.T) srcCase {
		g := newG(t, 4+uniform(t, p.fuel))
		if p.setup != nil {
			p.setup(g)
		}
		c := srcCase{Mode: mode, Kind: "program"}
		var want string
		if uniform(t, 9) >= 10-p.units {
			c.Kind = "unit"
			want = g.unit()
		} else {
			want = g.program()
		}
		l := drawLayout(t)
		r := []rendered{render(g.cur.toks, l, false)}
		c.Text = r[0].text
		c.Want = g.expand(want, r, mode)
		c.Feats = g.featList()
		c.Toks = len(g.cur.toks)
		return c
	}
}

func (g *G) featList() []string {
	r := []string{}
	for k := range g.feats {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortStrings(r []string) { sort.Strings(r) }

func srcClasses(c *srcCase) []string { return append([]string{c.Kind}, c.Feats...) }

// hasFeat makes a rule: at least n of the features occur.
func hasFeats(n int, names ...string) func(c *srcCase) bool {
	return func(c *srcCase) bool {
		k := 0
		for _, f := range c.Feats {
			for _, x := range names {
				if f == x {
					k++
				}
			}
		}
		return k >= n
	}
}
