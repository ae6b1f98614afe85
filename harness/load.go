package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P16: loading of projects: graphs of units, paths, faults

type loadUnit struct {
	Name string   `json:"name"` // as it is written in the file
	Path string   `json:"path"` // as it is to be reported
	Intf []string `json:"intf"`
	Impl []string `json:"impl"`
}

// A loadRef says where the type of the variable has to be declared.
type loadRef struct {
	File int    `json:"file"` // 0 is the program
	Var  string `json:"var"`
	Unit int    `json:"unit"` // the number of the file, or -1
}

type loadCase struct {
	Class  string     `json:"class"`
	Main   string     `json:"main"`
	Files  []projFile `json:"files"`
	Uses   []string   `json:"uses"`  // names in the uses clause of the program
	Units  []loadUnit `json:"units"` // the loaded units in the order of the uses clause
	Refs   []loadRef  `json:"refs"`
	Fails  bool       `json:"fails"`
	ErrHas string     `json:"errhas"`
	ErrAt  string     `json:"errat"`
	ErrPos string     `json:"errpos,omitempty"`
	Bad    string     `json:"bad,omitempty"`
	Padded bool       `json:"padded,omitempty"`
}

var loadNames = []string{"Alpha", "Beta", "Gamma", "Delta", "ユニット表", "Zeta", "Eta_7", "SysUtils"}

// ways to write the path of a unit whose file is NAME.pas
var loadPaths = []struct{ written, file string }{
	{`%s.pas`, `%s.pas`}, {`.\%s.pas`, `%s.pas`}, {`./%s.pas`, `%s.pas`}, {`sub\%s.pas`, `sub/%s.pas`}, {`sub/%s.pas`, `sub/%s.pas`},
	{`sub\deep\%s.pas`, `sub/deep/%s.pas`}, {`a\b\c\d\e\%s.pas`, `a/b/c/d/e/%s.pas`}, {`sub/deep\er/x\y\%s.pas`, `sub/deep/er/x/y/%s.pas`}, {`sub\..\sub\.\%s.pas`, `sub/%s.pas`}, {`..\proj\%s.pas`, `%s.pas`}, {`表ソ\%s.pas`, `表ソ/%s.pas`}, {`a b\%s.v1.inc`, `a b/%s.v1.inc`}, {`%s`, `%s`}, {`lib\\%s.pas`, `lib/%s.pas`},
	{`it''s\%s.pas`, `it's/%s.pas`}, {`''%s''.pas`, `'%s'.pas`}, {`%s.pas''`, `%s.pas'`},
}

// declarations with an error. Its place is the token with < before it.
var badDecls = []string{
	"var Dup : Integer ; <Dup : Integer ;",
	"var Dup , <dup : Integer ;",
	"type TDup = ( badE1 , badE2 ) ; <TDUP = ( badE3 ) ;",
	"type TDup = ( BadElem ) ; TOther = ( <BadElem ) ;",
	"type TFwd = class ; <TFwd = Integer ;",
	"type TSet = set of <Real ;",
	"type <Integer = ( badE1 , badE2 ) ;",
	"type TCls = class F : Integer ; property A : Integer read <G ; end ;",
	"procedure Dup ( a : Integer ; <A : Integer ) ; external 'x.dll' ;",
	"procedure Ext ; external 'x.dll' index <99999999999999999999 ;",
	"procedure Ext ; external 'x.dll' index <1.5 ;",
	"type <set = Integer ;",
	"var V , <begin : Integer ;",
}

type loadGen struct {
	t    *rapid.T
	toks []Tok
}

func (g *loadGen) w(words ...string) {
	for _, s := range words {
		k := byte('i')
		switch {
		case strings.ContainsAny(s[:1], ";,.:=()"):
			k = 'p'
		case s[0] == '\'':
			k = 's'
		case strings.Contains(" program unit interface implementation uses in type var begin end initialization class set of property procedure record function ", " "+s+" "):
			k = 'k'
		}
		g.toks = append(g.toks, Tok{S: s, K: k})
	}
}

func (g *loadGen) uses(names []string) {
	if len(names) == 0 {
		return
	}
	g.w("uses")
	for i, n := range names {
		if i > 0 {
			g.w(",")
		}
		g.w(recase(g.t, n))
	}
	g.w(";")
}

func genLoad(t *rapid.T) loadCase {
	n := 1 + many(t, 6, 24)
	nm := append([]string{}, loadNames...)
	for i := len(nm); i < n; i++ {
		nm = append(nm, fmt.Sprintf("Unit_%d", i))
	}
	for i := len(nm) - 1; i > 0; i-- {
		j := i - uniform(t, i)
		nm[i], nm[j] = nm[j], nm[i]
	}
	c := loadCase{Class: "correct", Main: pick(t, "main", []string{"main.dpr", "./main.dpr", "main.DPR", "表.dpr"})}
	// Who uses whom. In a graph without cycles a unit uses units before it only.
	cyclic := uniform(t, 3) == 0
	density := 1 + uniform(t, 3)
	intf, impl := make([][]int, n), make([][]int, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			switch {
			case (j < i || cyclic && uniform(t, 2) == 0) && uniform(t, density) == 0 && (i != j || uniform(t, 3) == 0):
				intf[i] = append(intf[i], j)
			case i != j && uniform(t, 2) == 0:
				impl[i] = append(impl[i], j)
			}
		}
		mix := func(s []int) {
			for a := len(s) - 1; a > 0; a-- {
				b := a - uniform(t, a)
				s[a], s[b] = s[b], s[a]
			}
		}
		mix(intf[i])
		mix(impl[i])
	}
	if n > 2 && uniform(t, 5) == 0 {
		// A chain of units, or a ring which has no shorter cycle.
		for i := range intf {
			intf[i] = nil
			if i > 0 {
				intf[i] = []int{i - 1}
			}
		}
		if cyclic {
			k := n - 1 - uniform(t, 2)*uniform(t, n-2)/2
			intf[0] = []int{k}
		}
		for i, js := range impl {
			impl[i] = nil
			for _, j := range js {
				if len(intf[i]) == 0 || j != intf[i][0] {
					impl[i] = append(impl[i], j)
				}
			}
		}
	}
	hasCycle := findCycle(intf)
	// The order in the uses clause of the program is any.
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - uniform(t, i)
		order[i], order[j] = order[j], order[i]
	}
	type file struct {
		written, eff, path, head string
		toks                     []Tok
	}
	fs := make([]file, n+1)
	for i := 0; i < n; i++ {
		lp := pick(t, "path", loadPaths)
		base := "u" + itoa(i)
		if coin.Draw(t, "base") {
			base = nm[i]
		}
		f := &fs[i+1]
		f.written = fmt.Sprintf(lp.written, base)
		f.eff = strings.ReplaceAll(strings.ReplaceAll(f.written, `\`, "/"), "''", "'")
		f.path = fmt.Sprintf(lp.file, base)
		f.head = recase(t, nm[i])
	}
	// Faults
	fault := ""
	victim := uniform(t, n-1)
	if !hasCycle && uniform(t, 1) == 0 {
		fault = pick(t, "fault", []string{"missing", "missing", "no program", "other name", "same name", "same item", "bad character", "bad character", "bad character", "bad declaration", "bad declaration", "bad declaration", "unit is a program", "empty", "directory"})
	}
	other := ""
	switch fault {
	case "other name":
		other = pick(t, "other", []string{"Other", nm[victim] + "2", "x" + nm[victim]})
		fs[victim+1].head = other
	case "same name":
		if n < 2 {
			fault = ""
			break
		}
		k := (victim + 1) % n
		fs[victim+1].head = recase(t, nm[k])
	}
	// The program
	g := &loadGen{t: t}
	g.w("program", "Main", ";", "uses")
	ext := uniform(t, 2) == 0
	first := true
	item := func(name, path string) {
		if !first {
			g.w(",")
		}
		first = false
		name = recase(t, name)
		g.w(name)
		if path != "" {
			g.w("in", "'"+path+"'")
		}
		c.Uses = append(c.Uses, name)
	}
	for k, i := range order {
		if ext && k == len(order)/2 {
			item("Windows", "")
		}
		item(nm[i], fs[i+1].written)
		if fault == "same item" && i == victim {
			item(nm[i], fs[i+1].written)
		}
		c.Units = append(c.Units, loadUnit{Name: fs[i+1].head, Path: fs[i+1].eff, Intf: namesOf(intf[i], nm), Impl: namesOf(impl[i], nm)})
	}
	if !ext && uniform(t, 3) == 0 {
		item("Forms", "")
	}
	g.w(";")
	g.w("var")
	for _, i := range order {
		v := "M" + itoa(i)
		g.w(v, ":")
		if coin.Draw(t, "qualify") {
			g.w(recase(t, nm[i]), ".")
		}
		g.w(recase(t, "T"+itoa(i)), ";")
		c.Refs = append(c.Refs, loadRef{0, v, i + 1})
	}
	g.w("begin", "end", ".")
	fs[0] = file{path: filepath.ToSlash(filepath.Clean(c.Main)), eff: c.Main, toks: g.toks}
	// The units
	for i := 0; i < n; i++ {
		g := &loadGen{t: t}
		in := func(s []int, k int) bool {
			for _, x := range s {
				if x == k {
					return true
				}
			}
			return false
		}
		g.w("unit", fs[i+1].head, ";", "interface")
		ext := uniform(t, 3) == 0
		us := namesOf(intf[i], nm)
		if ext {
			us = append(us, "Messages")
		}
		g.uses(us)
		vars := func(letter string, seen func(j int) bool) {
			g.w("var")
			for j := 0; j < n; j++ {
				v := letter + itoa(j)
				g.w(v, ":")
				if j != i && seen(j) && coin.Draw(t, "qualify") {
					g.w(recase(t, nm[j]), ".")
				}
				g.w(recase(t, "T"+itoa(j)), ";")
				u := -1
				if seen(j) {
					u = j + 1
				}
				c.Refs = append(c.Refs, loadRef{i + 1, v, u})
			}
		}
		g.w("type", "T"+itoa(i), "=", "(", "E"+itoa(i), ")", ";")
		vars("V", func(j int) bool { return j == i || in(intf[i], j) })
		g.w("implementation")
		g.uses(namesOf(impl[i], nm))
		vars("W", func(j int) bool { return j == i || in(intf[i], j) || in(impl[i], j) })
		if coin.Draw(t, "init") {
			g.w("initialization")
		}
		g.w("end", ".")
		fs[i+1].toks = g.toks
	}
	// Where the bad character is
	bad, badAt := -1, 0
	if fault == "bad character" {
		bad = uniform(t, n)
		badAt = uniform(t, len(fs[bad].toks)-1)
		toks := fs[bad].toks
		fs[bad].toks = append(toks[:badAt:badAt], append([]Tok{{S: pick(t, "char", []string{"?", "!", "%", "~"}), K: 'p'}}, toks[badAt:]...)...)
	}
	if fault == "bad declaration" {
		bad = uniform(t, n)
		place := pick(t, "part", []string{"implementation", "end"})
		if bad == 0 {
			place = "begin"
		}
		at := 0
		for i, x := range fs[bad].toks {
			if x.K == 'k' && (x.S == place || place == "end" && x.S == "initialization") {
				at = i
				break
			}
		}
		b := pick(t, "baddecl", badDecls)
		g := &loadGen{t: t}
		badAt = -1
		for _, w := range strings.Fields(b) {
			if w[0] == '<' {
				badAt, w = at+len(g.toks), w[1:]
			}
			g.w(w)
		}
		c.Bad = b
		toks := fs[bad].toks
		fs[bad].toks = append(toks[:at:at], append(g.toks, toks[at:]...)...)
	}
	padded := -1
	if uniform(t, 63) == 63 {
		padded = uniform(t, n)
	}
	for k := range fs {
		r := render(fs[k].toks, drawLayout(t), true)
		switch {
		case k == bad && fault == "bad declaration":
			c.ErrHas = fs[k].eff
			c.ErrPos = fmt.Sprintf("%d:%d", r.pos[badAt].line, r.pos[badAt].col)
		case k == bad:
			c.ErrAt = fmt.Sprintf("at %s:%d:%d", fs[k].eff, r.pos[badAt].line, r.pos[badAt].col)
		}
		pf := projFile{Path: fs[k].path, Text: r.text}
		switch {
		case fault == "missing" && k == victim+1:
			c.ErrHas = fs[k].eff
			continue
		case fault == "no program" && k == 0:
			c.ErrHas = c.Main
			continue
		case fault == "unit is a program" && k == victim+1:
			pf.Text = "program " + nm[victim] + "; begin end."
			c.ErrAt = fmt.Sprintf("at %s:1:1", fs[k].eff)
		case fault == "empty" && k == victim+1:
			pf.Text = pick(t, "empty", []string{"", " ", "{ unit }"})
			c.ErrHas = fs[k].eff
		case fault == "directory" && k == victim+1:
			pf.Path += "/x.pas"
			c.ErrHas = fs[k].eff
		case fault == "other name" && k == victim+1:
			c.ErrHas = fs[k].eff
		}
		if padded == k && pf.Text == r.text && bad != k {
			s := pick(t, "pad", []string{"{ comment }", " ", "\n", "(* 表ソ能 *)\r\n", "// ユニット\n", "\t{ . end. }"})
			n := 1 << (10 + uniform(t, 11))
			n += uniform(t, n)
			pf.Pad = &pad{At: r.pos[len(r.pos)-1].idx, Text: s, N: n / len(s)}
			c.Padded = true
		}
		c.Files = append(c.Files, pf)
	}
	switch {
	case hasCycle:
		c.Class, c.Fails, c.ErrHas = "cycle of interfaces", true, "cyclic"
	case fault != "":
		c.Class, c.Fails = fault, true
	case findCycle(both(intf, impl)):
		c.Class = "cycle by implementations"
	}
	if c.Fails {
		c.Refs, c.Units = nil, nil
	}
	return c
}

func namesOf(s []int, nm []string) []string {
	r := []string{}
	for _, i := range s {
		r = append(r, nm[i])
	}
	return r
}

func both(a, b [][]int) [][]int {
	r := make([][]int, len(a))
	for i := range a {
		r[i] = append(append([]int{}, a[i]...), b[i]...)
	}
	return r
}

// findCycle removes nodes which use no remaining node until none is left.
func findCycle(g [][]int) bool {
	gone := make([]bool, len(g))
	for {
		changed, left := false, 0
		for i := range g {
			if gone[i] {
				continue
			}
			free := true
			for _, j := range g[i] {
				if !gone[j] {
					free = false
				}
			}
			if free {
				gone[i], changed = true, true
			} else {
				left++
			}
		}
		if left == 0 {
			return false
		}
		if !changed {
			return true
		}
	}
}

func checkLoad(c *loadCase) error {
	return withProject(c.Files, func() error {
		prog, err := parser.ParseProgram(c.Main)
		if c.Fails {
			if err == nil {
				return fmt.Errorf("a project with a fault (%s) is accepted", c.Class)
			}
			if !strings.Contains(err.Error(), c.ErrHas) {
				return fmt.Errorf("the error (%s) doesn't mention %q: %v", c.Class, c.ErrHas, err)
			}
			if c.ErrPos != "" && !strings.Contains(strings.ReplaceAll(err.Error(), ",", ":"), c.ErrPos) {
				return fmt.Errorf("the error (%s, %s) doesn't name the place %s: %v", c.Class, c.Bad, c.ErrPos, err)
			}
			if !strings.HasSuffix(err.Error(), c.ErrAt) {
				return fmt.Errorf("the error (%s) isn't located %q: %v", c.Class, c.ErrAt, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("a correct project is rejected: %v", err)
		}
		if prog == nil || prog.Program == nil || prog.Program.ProgramBlock == nil {
			return fmt.Errorf("no error, but no program either")
		}
		if prog.Program.Path != c.Main || prog.Program.GetPath() != c.Main {
			return fmt.Errorf("the path of the program is %q instead of %q", prog.Program.Path, c.Main)
		}
		if len(prog.Units) != len(c.Units) {
			return fmt.Errorf("the program has %d units instead of %d", len(prog.Units), len(c.Units))
		}
		for i, u := range prog.Units {
			w := c.Units[i]
			if u == nil || u.Ident == nil {
				return fmt.Errorf("unit %d is nil", i)
			}
			if u.Ident.Name != w.Name {
				return fmt.Errorf("unit %d is %s instead of %s", i, u.Ident.Name, w.Name)
			}
			if u.Path != w.Path || u.GetPath() != w.Path {
				return fmt.Errorf("the path of unit %s is %q instead of %q", w.Name, u.Path, w.Path)
			}
			if got := prog.Units.ByName(strings.ToUpper(w.Name)); got != u {
				return fmt.Errorf("Units.ByName doesn't find unit %s", w.Name)
			}
		}
		items := func(what string, us ast.UsesClause) error {
			for _, it := range us {
				var want *ast.Unit
				for _, u := range prog.Units {
					if strings.EqualFold(u.Ident.Name, it.Ident.Name) {
						want = u
					}
				}
				if it.Unit != want {
					return fmt.Errorf("item %s of the uses clause of %s has the unit %s", it.Ident.Name, what, unitName(it.Unit))
				}
			}
			return nil
		}
		us := prog.Program.ProgramBlock.UsesClause
		if len(us) != len(c.Uses) {
			return fmt.Errorf("the uses clause of the program has %d items instead of %d", len(us), len(c.Uses))
		}
		for i, it := range us {
			if it.Ident.Name != c.Uses[i] {
				return fmt.Errorf("item %d of the uses clause is %s instead of %s", i, it.Ident.Name, c.Uses[i])
			}
		}
		if err := items("the program", us); err != nil {
			return err
		}
		for _, u := range prog.Units {
			if err := items("the interface of "+u.Ident.Name, u.InterfaceSection.UsesClause); err != nil {
				return err
			}
			if err := items("the implementation of "+u.Ident.Name, u.ImplementationSection.UsesClause); err != nil {
				return err
			}
		}
		return checkLoadRefs(c, prog)
	})
}

func unitName(u *ast.Unit) string {
	if u == nil {
		return "(nil)"
	}
	return u.Ident.Name
}

func checkLoadRefs(c *loadCase, prog *parser.Program) error {
	// Files by the type which they declare
	types := map[int]*ast.TypeDecl{}
	vars := map[string]*ast.TypeId{}
	for _, u := range prog.Units {
		no := -1
		// A unit declares one type, and its name has the number of the unit.
		if err := astcore.WalkDown(u.InterfaceSection, func(n astcore.Node) error {
			if td, ok := n.(*ast.TypeDecl); ok {
				if _, err := fmt.Sscanf(td.Ident.Name, "T%d", &no); err != nil {
					return err
				}
				no++
				types[no] = td
			}
			return nil
		}); err != nil {
			return err
		}
		if no < 0 {
			return fmt.Errorf("unit %s lost its type", u.Ident.Name)
		}
		collectVars(u.InterfaceSection, no, vars)
		collectVars(u.ImplementationSection, no, vars)
	}
	collectVars(prog.Program.ProgramBlock, 0, vars)
	for _, r := range c.Refs {
		id := vars[fmt.Sprintf("%d %s", r.File, r.Var)]
		if id == nil {
			return fmt.Errorf("the variable %s of file %d isn't in the tree", r.Var, r.File)
		}
		switch {
		case r.Unit < 0:
			if id.Ref != nil {
				return fmt.Errorf("the type of %s in file %d refers to a unit which isn't used", r.Var, r.File)
			}
		case id.Ref == nil:
			return fmt.Errorf("the type of %s in file %d refers to nothing", r.Var, r.File)
		case id.Ref.Node != astcore.Node(types[r.Unit]):
			return fmt.Errorf("the type of %s in file %d doesn't refer to the declaration in file %d", r.Var, r.File, r.Unit)
		}
	}
	return nil
}

func collectVars(root astcore.Node, no int, vars map[string]*ast.TypeId) {
	_ = astcore.WalkDown(root, func(n astcore.Node) error {
		if vd, ok := n.(*ast.VarDecl); ok {
			if id, ok := vd.Type.(*ast.TypeId); ok {
				for _, x := range vd.IdentList {
					vars[fmt.Sprintf("%d %s", no, x.Name)] = id
				}
			}
		}
		return nil
	})
}

func init() {
	properties = append(properties,
		&Property{ID: "P16", Facets: []Facet{
			facet("graphs", "projects of a program and 1 to 7 units with a random graph of interface and implementation uses, random paths and order, half of the correct graphs with one fault; non-trivial: at least 3 units", 20000, 1000000,
				genLoad, checkLoad, func(c *loadCase) bool { return len(c.Files) > 3 }, func(c *loadCase) []string {
					r := []string{c.Class, fmt.Sprintf("%d files", len(c.Files))}
					if c.Padded {
						r = append(r, "a large file")
					}
					return r
				}),
			facet("trees", "projects with full declarations and bodies, Shift-JIS text, and the expected tree of each file; non-trivial: at least 2 units", 4000, 200000,
				genProject(modePlain, 1, 5, nil), checkProject, func(c *projCase) bool { return len(c.Files) > 2 }, projClasses),
		}},
	)
}
