package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P17: walking a tree

type walkCase struct {
	Kind   string   `json:"kind"`
	Text   string   `json:"text"`
	Idents []string `json:"idents"` // index:name, in the order of the source
	Stop   int      `json:"stop"`
	Feats  []string `json:"feats,omitempty"`
}

// markedIdents gives the names of file f which occur in the expected tree.
func (g *G) markedIdents(want string, f int, r rendered) []string {
	var ks []int
	for i := 0; i < len(want); i++ {
		if want[i] == 1 {
			j := strings.IndexByte(want[i:], 2) + i
			if file, tok := splitInts(want[i+1 : j]); file == f {
				ks = append(ks, tok)
			}
			i = j
		}
	}
	sort.Ints(ks)
	res := []string{}
	for i, k := range ks {
		if i > 0 && ks[i-1] == k {
			continue
		}
		res = append(res, fmt.Sprintf("%d:%s", r.pos[k].idx, g.files[f].toks[k].S))
	}
	return res
}

func genWalk(p profile) func(t *rapid.T) walkCase {
	return func(t *rapid.T) walkCase {
		g := newG(t, 4+uniform(t, p.fuel))
		if p.setup != nil {
			p.setup(g)
		}
		c := walkCase{Kind: "program"}
		var want string
		if uniform(t, 9) >= 10-p.units {
			c.Kind = "unit"
			want = g.unit()
		} else {
			want = g.program()
		}
		r := render(g.cur.toks, drawLayout(t), false)
		c.Text = r.text
		c.Idents = g.markedIdents(want, 0, r)
		c.Stop = uniform(t, 40)
		c.Feats = g.featList()
		return c
	}
}

func visited(n astcore.Node) *ast.Ident {
	switch v := n.(type) {
	case *ast.Ident:
		return v
	case *ast.VarDeclAbsoluteIdent:
		return (*ast.Ident)(v)
	}
	return nil
}

func checkWalk(c *walkCase) error {
	root, err := parseText(c.Kind, c.Text)
	if err != nil {
		return fmt.Errorf("a correct %s is rejected: %v", c.Kind, err)
	}
	return walkErr(root.(astcore.Node), c.Idents, c.Stop)
}

type stopErr struct{}

func (*stopErr) Error() string { return "stop" }

func walkErr(root astcore.Node, want []string, stop int) error {
	var got []string
	var nodes []astcore.Node
	if err := astcore.WalkDown(root, func(n astcore.Node) error {
		nodes = append(nodes, n)
		if id := visited(n); id != nil {
			if id.Location == nil || id.Location.Start == nil {
				return fmt.Errorf("the identifier %s has no location", id.Name)
			}
			got = append(got, fmt.Sprintf("%d:%s", id.Location.Start.Index, id.Name))
		}
		return nil
	}); err != nil {
		return fmt.Errorf("WalkDown fails although the function doesn't: %v", err)
	}
	a, b := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(a)
	sort.Strings(b)
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(b) || i < len(a) && a[i] < b[i]:
			return fmt.Errorf("the identifier %s is visited although it isn't in the source, or more than once", a[i])
		case i >= len(a) || a[i] > b[i]:
			return fmt.Errorf("the identifier %s is not visited", b[i])
		}
	}
	if len(nodes) == 0 || nodes[0] != root {
		return fmt.Errorf("the walk doesn't begin at the root")
	}
	// An error ends the walk and is returned.
	stop %= len(nodes)
	k := 0
	e := &stopErr{}
	err := astcore.WalkDown(root, func(n astcore.Node) error {
		k++
		if k == stop+1 {
			return e
		}
		return nil
	})
	if err != error(e) {
		return fmt.Errorf("an error of the function at node %d isn't returned: %v", stop, err)
	}
	if k != stop+1 {
		return fmt.Errorf("the walk goes on after an error: %d nodes instead of %d", k, stop+1)
	}
	return nil
}

type walkProjCase struct {
	Files  []projFile `json:"files"`
	Idents [][]string `json:"idents"`
	Stop   int        `json:"stop"`
	Feats  []string   `json:"feats,omitempty"`
}

func checkWalkProject(c *walkProjCase) error {
	return withProject(c.Files, func() error {
		prog, err := parser.ParseProgram(progPath)
		if err != nil {
			return fmt.Errorf("a correct project is rejected: %v", err)
		}
		if err := walkErr(prog.Program, c.Idents[0], c.Stop); err != nil {
			return fmt.Errorf("in the program: %v", err)
		}
		for i, f := range c.Files[1:] {
			u := prog.Units.ByName(f.Unit)
			if u == nil {
				return fmt.Errorf("there is no unit %s", f.Unit)
			}
			if err := walkErr(u, c.Idents[i+1], c.Stop); err != nil {
				return fmt.Errorf("in the unit %s: %v", f.Unit, err)
			}
		}
		return nil
	})
}

func genWalkProject(t *rapid.T) walkProjCase {
	g := newG(t, 0)
	g.opts = gopts{exprMax: 2, classes: true, classBias: 3, decls: "cvttrrw", maxDecls: 3, exports: true, bodyFuel: 20}
	units, _, want := g.project(1+uniform(t, 2), 12+uniform(t, 30))
	c := walkProjCase{Stop: uniform(t, 40)}
	for i, f := range g.files {
		r := render(f.toks, drawLayout(t), true)
		pf := projFile{Path: progPath, Text: r.text}
		if i > 0 {
			pf.Path, pf.Unit = filepath.ToSlash(filepath.Clean(units[i-1].file)), units[i-1].name
		}
		c.Files = append(c.Files, pf)
		c.Idents = append(c.Idents, g.markedIdents(want[i], i, r))
	}
	c.Feats = g.featList()
	return c
}

func walkRule(what string) string { return what + "; non-trivial: at least 10 identifiers" }

func init() {
	nt := func(c *walkCase) bool { return len(c.Idents) >= 10 }
	cl := func(c *walkCase) []string { return append([]string{c.Kind}, c.Feats...) }
	properties = append(properties,
		&Property{ID: "P17", Facets: []Facet{
			facet("files", walkRule("programs and units with all kinds of declarations"), 20000, 1000000, genWalk(mixedProfile()), checkWalk, nt, cl),
			facet("types", walkRule("programs and units with types"), 15000, 800000, genWalk(typeProfile()), checkWalk, nt, cl),
			facet("classes", walkRule("programs and units with classes"), 15000, 800000, genWalk(classProfile()), checkWalk, nt, cl),
			facet("statements", walkRule("programs and units with statements and expressions"), 15000, 800000, genWalk(stmtProfile()), checkWalk, nt, cl),
			facet("sections", walkRule("programs and units with sections, routines and headings"), 15000, 800000, genWalk(fileProfile()), checkWalk, nt, cl),
			facet("built", "trees made of nodes of all types, also of those which the parser never makes, with and without their optional parts; non-trivial: at least 3 identifiers", 40000, 2000000,
				genTree, checkTree, treeIdents(3), func(c *treeCase) []string { return []string{c.Root} }),
			facet("projects", walkRule("projects of a program and 1 to 3 units"), 3000, 150000, genWalkProject, checkWalkProject,
				func(c *walkProjCase) bool { return len(c.Idents[0]) >= 10 }, func(c *walkProjCase) []string { return c.Feats }),
		}},
	)
}
