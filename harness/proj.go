package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"golang.org/x/text/encoding/japanese"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Projects: a program and the units which it uses

type gunit struct {
	no       int // file number
	name     string
	path     string // as it is written in the program
	file     string // where it is
	local    *gmap  // declarations of the interface, with the unit itself
	exports  *gmap
	items    *gmap
	intfUses []*gunit
	extUses  []string
	decl     *gdecl
	implNs   *gmap
	intf     string
	port     string
	usesDump string
	idMark   string
	dump     string
}

type projFile struct {
	Path string `json:"path"` // relative, with slashes
	Unit string `json:"unit,omitempty"`
	Text string `json:"text"`
	Pad  *pad   `json:"pad,omitempty"`
}

// A pad is a lot of text without a meaning which is put into a file.
type pad struct {
	At   int    `json:"at"` // in characters
	Text string `json:"text"`
	N    int    `json:"n"`
}

func (pf *projFile) full() []rune {
	rs := []rune(pf.Text)
	if pf.Pad == nil {
		return rs
	}
	return append(rs[:pf.Pad.At:pf.Pad.At], append([]rune(strings.Repeat(pf.Pad.Text, pf.Pad.N)), rs[pf.Pad.At:]...)...)
}

type projCase struct {
	Mode  string     `json:"mode"`
	Files []projFile `json:"files"` // the program is the first
	Order []string   `json:"order"` // unit names in the order of the uses clause
	Want  []string   `json:"want"`  // trees of the program and of the units, by file
	Feats []string   `json:"feats,omitempty"`
}

func (g *G) switchTo(no int) {
	g.curNo = no
	g.cur = g.files[no]
}

var unitPaths = []struct{ name, path string }{
	{"UnitA", `UnitA.pas`}, {"UnitB", `lib\UnitB.pas`}, {"UnitC", `sub\deep\UnitC.pas`},
	{"ユニット表", `UnitD.pas`}, {"UnitE", `表ソ\UnitE.pas`}, {"UnitF", `./UnitF.pas`},
}

// unitFile gives the name and file of the unit i.
func unitFile(names []int, i int) struct{ name, path string } {
	if i < len(names) {
		return unitPaths[names[i]]
	}
	return struct{ name, path string }{fmt.Sprintf("Unit%d", i), fmt.Sprintf(`more\%dUnit.pas`, i)}
}

func exportsOf(u *gunit) *gmap {
	m := newGmap()
	for _, k := range u.local.order {
		if d := u.local.m[k]; d != nil && d != u.decl {
			m.set(d)
		}
	}
	return m
}

func (g *G) shuffle(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - g.n("perm", i)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// project generates the files; the result is the expected trees by file.
func (g *G) project(nUnits int, unitFuel int) ([]*gunit, []*gunit, []string) {
	g.openFile(progPath)
	units := make([]*gunit, nUnits)
	names := g.shuffle(len(unitPaths))
	for i := range units {
		up := unitFile(names, i)
		g.openFile(up.path)
		units[i] = &gunit{no: i + 1, name: up.name, path: up.path, file: strings.ReplaceAll(up.path, `\`, "/")}
	}
	// Interfaces: a unit uses only units which come before it.
	for i, u := range units {
		g.fuel = unitFuel
		g.unitInterface(u, units[:i])
	}
	for _, u := range units {
		g.fuel = unitFuel
		g.unitImpl(u, units)
	}
	// The program
	order := make([]*gunit, 0, nUnits)
	for _, i := range g.shuffle(nUnits) {
		order = append(order, units[i])
	}
	g.fuel = unitFuel
	want := []string{g.projProgram(order)}
	for _, u := range units {
		want = append(want, u.dump)
	}
	return units, order, want
}

func (g *G) unitInterface(u *gunit, before []*gunit) {
	g.switchTo(u.no)
	g.nsHint = nil
	g.must("unit")
	id, tok := g.ident(u.name)
	u.idMark = id
	u.port = g.unitPort()
	g.p(";")
	g.must("interface")
	u.items = newGmap()
	u.usesDump = "[]"
	var uses []*gunit
	for _, b := range before {
		if g.chance("useit", 1, 2) {
			uses = append(uses, b)
		}
	}
	ext := g.chance("ext", 1, 4)
	g.lastUses = nil
	if len(uses) > 0 || ext {
		u.usesDump = g.usesClause(uses, ext, extUnits, u.items)
	}
	u.intfUses = g.lastUses
	u.decl = &gdecl{kind: "unit", name: u.name, file: u.no, tok: tok, ns: func() *gmap { return u.namespace() }}
	u.local = newGmap()
	u.local.set(u.decl)
	maps := []*gmap{u.local}
	for i := len(u.intfUses) - 1; i >= 0; i-- {
		maps = append(maps, u.intfUses[i].exports)
	}
	maps = append(maps, u.items, builtinMap)
	g.scope = &gscope{maps: maps}
	g.nsHint = append(g.nsHint, u.decl)
	u.intf = g.interfaceDecls()
	u.exports = exportsOf(u)
}

// namespace is what Unit.x finds in the unit itself.
func (u *gunit) namespace() *gmap {
	if u.exports == nil {
		return exportsOf(u) // so far
	}
	if u.implNs == nil {
		return nil
	}
	m := newGmap()
	for _, k := range u.implNs.order {
		if d := u.implNs.m[k]; d != nil {
			m.set(d)
		}
	}
	for _, k := range u.exports.order {
		if m.m[k] == nil {
			m.set(u.exports.m[k])
		}
	}
	return m
}

// usesClause emits USES with the units in any order, and fills in the items.
func (g *G) usesClause(uses []*gunit, ext bool, extNames []string, items *gmap) string {
	type entry struct {
		u    *gunit
		name string
	}
	var es []entry
	for _, u := range uses {
		es = append(es, entry{u, u.name})
	}
	if ext {
		n := g.some(1, 2)
		for i := 0; i < n; i++ {
			es = append(es, entry{nil, extNames[i]})
		}
	}
	g.kw("uses")
	r := []string{}
	g.lastUses = nil
	for k, i := range g.shuffle(len(es)) {
		if k > 0 {
			g.p(",")
		}
		e := es[i]
		name := g.spell(e.name)
		s, d := g.usesItem(name, items)
		if e.u != nil {
			u := e.u
			d.ns = func() *gmap { return u.exports }
			g.nsHint = append(g.nsHint, d)
			g.lastUses = append(g.lastUses, u)
		}
		r = append(r, s)
	}
	g.p(";")
	g.feat("uses")
	return lst(r)
}

func (g *G) unitImpl(u *gunit, units []*gunit) {
	g.switchTo(u.no)
	g.nsHint = nil
	for _, k := range u.items.order {
		if d := u.items.m[k]; d.ns != nil {
			g.nsHint = append(g.nsHint, d)
		}
	}
	g.nsHint = append(g.nsHint, u.decl)
	g.must("implementation")
	implItems := newGmap()
	usesDump := "[]"
	// Units which are used by the implementation only come before the ones used by the interface.
	var uses []*gunit
	for _, x := range units {
		if x == u || u.uses(x) || !g.chance("useit", 1, 3) {
			continue
		}
		uses = append(uses, x)
	}
	ext := g.chance("ext", 1, 5)
	g.lastUses = nil
	if len(uses) > 0 || ext {
		usesDump = g.usesClause(uses, ext, []string{"Forms", "Graphics"}, implItems)
		if len(uses) > 0 {
			g.feat("impluses")
		}
	}
	u.implNs = newGmap()
	maps := []*gmap{u.implNs, implItems, u.local}
	for i := len(g.lastUses) - 1; i >= 0; i-- {
		maps = append(maps, g.lastUses[i].exports)
	}
	for i := len(u.intfUses) - 1; i >= 0; i-- {
		maps = append(maps, u.intfUses[i].exports)
	}
	maps = append(maps, u.items, builtinMap)
	g.scope = &gscope{maps: maps}
	impl, ini := g.implBody(usesDump)
	u.implNs = nil
	u.dump = sx("unit", u.idMark, u.port, sx("interface", u.usesDump, u.intf), impl, ini)
}

func (u *gunit) uses(x *gunit) bool {
	for _, v := range u.intfUses {
		if v == x {
			return true
		}
	}
	return false
}

func (g *G) projProgram(order []*gunit) string {
	g.switchTo(0)
	g.nsHint = nil
	g.must("program")
	id, tok := g.ident(g.progName())
	g.p(";")
	items := newGmap()
	us := []string{}
	ext := g.chance("ext", 1, 3)
	if len(order) > 0 || ext {
		g.kw("uses")
		first := true
		comma := func() {
			if !first {
				g.p(",")
			}
			first = false
		}
		for _, u := range order {
			if ext && g.chance("extfirst", 1, 2) {
				ext = false
				comma()
				s, _ := g.usesItem(extUnits[0], items)
				us = append(us, s)
			}
			comma()
			name := g.spell(u.name)
			mk, tok := g.ident(name)
			g.must("in")
			p := "'" + u.path + "'"
			g.emit(Tok{S: p, K: 's'})
			u := u
			d := &gdecl{kind: "uses", name: name, file: 0, tok: tok, ns: func() *gmap { return u.exports }}
			items.set(d)
			g.nsHint = append(g.nsHint, d)
			us = append(us, sx("u", mk, p))
		}
		if ext {
			comma()
			s, _ := g.usesItem(extUnits[0], items)
			us = append(us, s)
		}
		g.p(";")
	}
	maps := []*gmap{}
	if len(us) > 0 {
		local := newGmap()
		prog := &gdecl{kind: "program", name: g.cur.toks[tok].S, file: 0, tok: tok, ns: func() *gmap { return local }}
		local.set(prog)
		g.nsHint = append(g.nsHint, prog)
		maps = append(maps, local)
	} else {
		maps = append(maps, newGmap())
	}
	// The declarations of the program come first, then the units, the last one of
	// the uses clause first.
	maps = append(maps, items)
	for i := len(order) - 1; i >= 0; i-- {
		maps = append(maps, order[i].exports)
	}
	maps = append(maps, builtinMap)
	g.scope = &gscope{maps: maps}
	b := g.block(0, true)
	g.br(".")
	return sx("program", id, lst(us), b)
}

func genProject(mode string, minUnits, maxUnits int, setup func(g *G)) func(t *rapid.T) projCase {
	return func(t *rapid.T) projCase {
		g := newG(t, 0)
		g.opts = gopts{exprMax: 2, classes: true, classBias: 3, decls: "cvttrrw", maxDecls: 3, exports: true, bodyFuel: 25}
		if setup != nil {
			setup(g)
		}
		n, fuel := minUnits+uniform(t, maxUnits-minUnits), 12+uniform(t, 40)
		if uniform(t, 63) == 63 { // many units
			n, fuel = maxUnits+uniform(t, 14), 8
		}
		units, order, want := g.project(n, fuel)
		c := projCase{Mode: mode}
		var rend []rendered
		for _, f := range g.files {
			rend = append(rend, render(f.toks, drawLayout(t), true))
		}
		c.Files = append(c.Files, projFile{Path: progPath, Text: rend[0].text})
		for _, u := range units {
			c.Files = append(c.Files, projFile{Path: filepath.ToSlash(filepath.Clean(u.file)), Unit: u.name, Text: rend[u.no].text})
		}
		for _, u := range order {
			c.Order = append(c.Order, u.name)
		}
		for _, w := range want {
			c.Want = append(c.Want, g.expand(w, rend, mode))
		}
		c.Feats = g.featList()
		return c
	}
}

// ---------------------------------------------------------------------------
// Running a project

const projDir = "proj"

// withProject writes the files as Shift-JIS, and calls f in their directory.
func withProject(files []projFile, f func() error) error {
	if err := os.RemoveAll(projDir); err != nil {
		return envErr(err)
	}
	if err := os.Mkdir(projDir, 0o755); err != nil {
		return envErr(err)
	}
	if err := os.Chdir(projDir); err != nil {
		return envErr(err)
	}
	defer func() {
		_ = os.Chdir("..")
		_ = os.RemoveAll(projDir)
	}()
	if err := writeFiles(files); err != nil {
		return err
	}
	return f()
}

func sjis(rs []rune) ([]byte, error) { return japanese.ShiftJIS.NewEncoder().Bytes([]byte(string(rs))) }

// projDumps gives the trees of the program and of the units in the order of the files.
func projDumps(prog *parser.Program, files []projFile, mode string) ([]string, error) {
	if prog == nil || prog.Program == nil {
		return nil, fmt.Errorf("no error, but no program either")
	}
	if len(prog.Units) != len(files)-1 {
		return nil, fmt.Errorf("the program has %d units instead of %d", len(prog.Units), len(files)-1)
	}
	roots := []any{prog.Program}
	for _, f := range files[1:] {
		var u *ast.Unit
		for _, x := range prog.Units {
			if x != nil && x.Ident != nil && strings.EqualFold(x.Ident.Name, f.Unit) {
				u = x
			}
		}
		if u == nil {
			return nil, fmt.Errorf("the unit %s isn't among the units of the program", f.Unit)
		}
		roots = append(roots, u)
	}
	d := &dumper{mode: mode, own: ownership(roots...)}
	r := []string{d.program(prog.Program)}
	for _, u := range roots[1:] {
		r = append(r, d.unit(u.(*ast.Unit)))
	}
	return r, nil
}

func writeFiles(files []projFile) error {
	for _, pf := range files {
		p := filepath.FromSlash(pf.Path)
		if d := filepath.Dir(p); d != "." {
			if err := os.MkdirAll(d, 0o755); err != nil {
				return envErr(err)
			}
		}
		b, err := sjis(pf.full())
		if err != nil {
			return envErr(fmt.Errorf("%s: %v", pf.Path, err))
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return envErr(err)
		}
	}
	return nil
}

func checkProject(c *projCase) error {
	return withProject(c.Files, func() error { return checkLoaded(c) })
}

// checkLoaded loads the project, whose files are in the current directory.
func checkLoaded(c *projCase) error {
	{
		prog, err := parser.ParseProgram(progPath)
		if err != nil {
			return fmt.Errorf("a correct project is rejected: %v", err)
		}
		got, err := projDumps(prog, c.Files, c.Mode)
		if err != nil {
			return err
		}
		for i := range got {
			if err := diffErr("the tree of "+c.Files[i].Path, got[i], c.Want[i]); err != nil {
				return err
			}
		}
		for i, u := range prog.Units {
			if !strings.EqualFold(u.Ident.Name, c.Order[i]) {
				return fmt.Errorf("unit %d of the program is %s instead of %s", i, u.Ident.Name, c.Order[i])
			}
		}
		return nil
	}
}

func projClasses(c *projCase) []string {
	return append([]string{fmt.Sprintf("%d units", len(c.Files)-1)}, c.Feats...)
}

func init() {
	properties = append(properties,
		&Property{ID: "P15", Facets: []Facet{
			facet("refs", "projects", 20000, 400000,
				genProject(modeRefs, 1, 4, nil), checkProject, func(c *projCase) bool { return len(c.Files) > 2 }, projClasses),
			facet("hidden", "projects of up to three units with a name qualified by a unit or the program, declared there or not (declared in its implementation, as a field, a parameter, in a unit it uses, built-in, nowhere): accepted, or rejected in that file, types without a declaration refer to nothing; non-trivial: not declared in the interface", 10000, 500000,
				genHidden, checkHidden, func(c *hiddenCase) bool { return !c.Found }, func(c *hiddenCase) []string { return []string{c.Class} }),
		}},
	)
}
