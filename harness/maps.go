package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/runes"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P19: declaration maps and contexts, as histories of operations

type mapOp struct {
	Op    string   `json:"op"`
	On    int      `json:"on"`             // the map or context
	Args  []int    `json:"args,omitempty"` // other maps
	Names []string `json:"names,omitempty"`
}

type mapCase struct {
	Ops []mapOp `json:"ops"`
}

var mapNames = []string{"a", "A", "b", "foo", "FOO", "Foo", "foO", "bar", "_x", "_X", "ä", "Ä", "表", "x1", "X1", "Integer", "INTEGER", "string", "Boolean"}

// mapName draws a name: mostly one of a few.
func mapName(t *rapid.T) string {
	if uniform(t, 11) < 11 {
		return pick(t, "name", mapNames)
	}
	s := fmt.Sprintf("%c%d", "vVw"[uniform(t, 2)], uniform(t, 40))
	if uniform(t, 7) == 7 {
		s = strings.Repeat(s, 1+uniform(t, 90))
	}
	return s
}

// many draws a number, now and then a big one.
func many(t *rapid.T, max, big int) int {
	if uniform(t, 31) == 31 {
		return max + uniform(t, big)
	}
	return uniform(t, max)
}

func genMapCase(t *rapid.T) mapCase {
	c := mapCase{}
	n := 1 // the number of maps; map 0 is the one of the built-in types
	undo := 0
	isCtx, isUnit := []bool{false}, map[int]bool{}
	m := 4 + many(t, 24, 120)
	for i := 0; i < m; i++ {
		op := mapOp{On: n - 1 - uniform(t, n-1)}
		k := uniform(t, 17)
		if k == 16 { // a unit context
			for j := range isCtx {
				if isUnit[j] && (j >= op.On || !isUnit[op.On]) {
					op.On = j
				}
			}
		}
		if k == 5 || k == 6 || k == 8 { // the latest context
			for j := range isCtx {
				if isCtx[j] && (j >= op.On || !isCtx[op.On]) {
					op.On = j
				}
			}
		}
		switch {
		case k == 0 || n == 1:
			op.Op = "new"
			n, isCtx = n+1, append(isCtx, false)
		case k <= 2:
			op.Op = "chained"
			n, isCtx = n+1, append(isCtx, false)
		case k == 3:
			op.Op = "composite"
			for j := 1 + many(t, 3, 40); j > 0; j-- {
				op.Args = append(op.Args, uniform(t, n-1))
			}
			op.On = uniform(t, 1) // reversed or not
			n, isCtx = n+1, append(isCtx, false)
		case k == 4:
			op.Op = pick(t, "ctx", []string{"program context", "unit context"})
			if op.Op == "unit context" {
				isUnit[n] = true
			}
			if uniform(t, 2) == 0 { // over a given map
				op.Args = []int{uniform(t, n-1)}
			}
			n, isCtx = n+1, append(isCtx, true)
		case k <= 6 && isCtx[op.On]:
			op.Op = "stack"
			undo++
		case k == 7 && undo > 0:
			op.Op = "unstack"
			undo--
		case k == 8 && isCtx[op.On]:
			op.Op = "clone"
			if isUnit[op.On] {
				isUnit[n] = true
			}
			n, isCtx = n+1, append(isCtx, true)
		case k == 15 && isCtx[op.On]:
			op.Op = "stackable context"
			n, isCtx = n+1, append(isCtx, true)
		case k == 16 && isUnit[op.On]:
			op.Op = "import"
			for j := many(t, 4, 40); j > 0; j-- {
				a := uniform(t, n-1)
				if uniform(t, 4) == 0 {
					a = -1 // not a unit of the program
				}
				op.Args = append(op.Args, a)
			}
		case k <= 10:
			op.Op = "overwrite"
			op.Names = []string{mapName(t)}
		default:
			op.Op = "set"
			for j := 1 + many(t, 2, 90); j > 0; j-- {
				op.Names = append(op.Names, mapName(t))
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// modelMap is a map with what it is made of.
type modelMap struct {
	own    map[string]*astcore.Decl
	target *modelCtx   // where names are set, if not here
	look   []*modelCtx // where names are looked up after own
	up     *modelMap   // the map below in a stack
	fixed  bool        // the built-in types
}

// modelCtx is a map, or a context whose map changes.
type modelCtx struct {
	real astcore.DeclMap
	m    *modelMap
	ctx  parser.Context
}

func (m *modelMap) get(name string) *astcore.Decl {
	if d := m.own[strings.ToLower(name)]; d != nil {
		return d
	}
	if m.up != nil {
		return m.up.get(name)
	}
	for _, x := range m.look {
		if d := x.m.get(name); d != nil {
			return d
		}
	}
	return nil
}

// reaches tells whether a lookup in a leads to b.
func reaches(a, b *modelCtx, seen map[*modelMap]bool) bool {
	if a == b {
		return true
	}
	for m := a.m; m != nil; m = m.up {
		if seen[m] {
			continue
		}
		seen[m] = true
		for _, x := range m.look {
			if reaches(x, b, seen) {
				return true
			}
		}
	}
	return false
}

func (m *modelMap) dest() *modelMap {
	for m.target != nil {
		m = m.target.m
	}
	return m
}

func mapIdent(n int, name string) *ast.Ident {
	p := runes.NewPosition()
	p.Line = n + 1
	return &ast.Ident{Name: name, Location: &astcore.Location{Path: "test", Start: p, End: p.Clone()}}
}

func checkMaps(c *mapCase) error {
	base := &modelMap{own: map[string]*astcore.Decl{}, fixed: true}
	for n := range builtins {
		base.own[n] = ast.EmbeddedTypeDeclMap.Get(n)
		if base.own[n] == nil {
			return fmt.Errorf("the built-in type %s isn't found", n)
		}
	}
	maps := []*modelCtx{{real: ast.EmbeddedTypeDeclMap, m: base}}
	all := append([]string{}, mapNames...)
	seen := map[string]bool{}
	for _, n := range all {
		seen[n] = true
	}
	for _, o := range c.Ops {
		for _, n := range o.Names {
			if !seen[n] {
				seen[n] = true
				all = append(all, n, strings.ToUpper(n))
			}
		}
	}
	type undo struct {
		f    func()
		mc   *modelCtx
		back *modelMap
	}
	var undos []undo
	add := func(r astcore.DeclMap, m *modelMap) {
		x := &modelCtx{real: r, m: m}
		if ctx, ok := r.(parser.Context); ok {
			x.ctx = ctx
		}
		maps = append(maps, x)
	}
	for step, op := range c.Ops {
		where := fmt.Sprintf("step %d (%s)", step, op.Op)
		switch op.Op {
		case "new":
			add(astcore.NewDeclMap(), &modelMap{own: map[string]*astcore.Decl{}})
		case "chained":
			p := maps[op.On]
			add(astcore.NewChainedDeclMap(p.real), &modelMap{own: map[string]*astcore.Decl{}, look: []*modelCtx{p}})
		case "composite":
			var rs astcore.DeclMaps
			var ms []*modelCtx
			for _, i := range op.Args {
				rs = append(rs, maps[i].real)
				ms = append(ms, maps[i])
			}
			if op.On == 1 {
				before := append(astcore.DeclMaps{}, rs...)
				rev := rs.Reverse()
				for i := range rs {
					if fmt.Sprintf("%p", rs[i]) != fmt.Sprintf("%p", before[i]) {
						return fmt.Errorf("%s: Reverse changes its receiver", where)
					}
				}
				rs = rev
				for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
					ms[i], ms[j] = ms[j], ms[i]
				}
			}
			add(astcore.NewCompositeDeclMap(rs...), &modelMap{look: ms, target: ms[0]})
		case "program context", "unit context":
			m := &modelMap{own: map[string]*astcore.Decl{}, up: base}
			args := []any{fmt.Sprintf("%d.pas", step)}
			if len(op.Args) == 1 {
				x := maps[op.Args[0]]
				m = &modelMap{look: []*modelCtx{x}, target: x}
				args = append(args, x.real)
			}
			units := ast.Units{&ast.Unit{Ident: mapIdent(step, "First")}}
			if op.Op == "program context" {
				args = append(args, units)
			}
			for k := 0; k < step%3; k++ {
				args = append(args[1:], args[0])
			}
			if op.Op == "program context" {
				pc := parser.NewProgramContext(args...)
				if len(pc.Units) != 1 || pc.Units[0] != units[0] {
					return fmt.Errorf("%s: the context has other units", where)
				}
				add(pc, m)
			} else {
				add(parser.NewUnitContext(parser.NewProgramContext("p.dpr", units), args...), m)
			}
			if p := maps[len(maps)-1].ctx.GetPath(); p != fmt.Sprintf("%d.pas", step) {
				return fmt.Errorf("%s: the context has the path %q", where, p)
			}
		case "stackable context":
			x := maps[op.On]
			sc := parser.NewStackableContext(x.ctx)
			if sc.GetPath() != x.ctx.GetPath() {
				return fmt.Errorf("%s: the context has the path %q instead of %q", where, sc.GetPath(), x.ctx.GetPath())
			}
			add(sc, &modelMap{own: map[string]*astcore.Decl{}, look: []*modelCtx{x}})
		case "import":
			// Units are searched from the last to the first, before what was visible.
			x := maps[op.On]
			uc, ok := x.ctx.(*parser.UnitContext)
			if !ok {
				return fmt.Errorf("%s: %T isn't a unit context", where, x.ctx)
			}
			old := &modelCtx{m: x.m}
			own := &modelCtx{m: &modelMap{own: map[string]*astcore.Decl{}}}
			look := []*modelCtx{}
			uses := ast.UsesClause{}
			want := ast.Units{}
			for k, a := range op.Args {
				name := fmt.Sprintf("Imp%d_%d", step, k)
				item := &ast.UsesClauseItem{Ident: mapIdent(step, strings.ToUpper(name))}
				uses = append(uses, item)
				if a < 0 {
					want = append(want, nil)
					continue
				}
				u := &ast.Unit{Ident: mapIdent(step, name), DeclMap: maps[a].real}
				if maps[a].real == x.real || reaches(maps[a], x, map[*modelMap]bool{}) { // a cycle
					u.DeclMap = astcore.NewDeclMap()
					look = append([]*modelCtx{{m: &modelMap{own: map[string]*astcore.Decl{}}}}, look...)
				} else {
					look = append([]*modelCtx{maps[a]}, look...)
				}
				uc.Parent.AddUnit(u)
				want = append(want, u)
			}
			uc.ImportUnitDecls(uses)
			for k := range uses {
				if uses[k].Unit != want[k] {
					return fmt.Errorf("%s: item %d of the uses clause refers to another unit", where, k)
				}
			}
			look = append(append([]*modelCtx{own}, look...), old)
			x.m = &modelMap{look: look, target: own}
		case "clone":
			x := maps[op.On]
			cl := x.ctx.Clone()
			if cl.GetPath() != x.ctx.GetPath() {
				return fmt.Errorf("%s: the clone has the path %q instead of %q", where, cl.GetPath(), x.ctx.GetPath())
			}
			add(cl, x.m)
		case "stack":
			x := maps[op.On]
			f := x.ctx.StackDeclMap()
			undos = append(undos, undo{f, x, x.m})
			x.m = &modelMap{own: map[string]*astcore.Decl{}, up: x.m}
		case "unstack":
			u := undos[len(undos)-1]
			undos = undos[:len(undos)-1]
			u.f()
			u.mc.m = u.back
		case "overwrite":
			x := maps[op.On]
			d := astcore.NewDeclaration(mapIdent(step, op.Names[0]), &ast.VarDecl{IdentList: ast.IdentList{mapIdent(step, op.Names[0])}})
			x.real.Overwrite(op.Names[0], d)
			if t := x.m.dest(); !t.fixed {
				t.own[strings.ToLower(op.Names[0])] = d
			}
		case "set":
			x := maps[op.On]
			ids := ast.IdentList{}
			for _, n := range op.Names {
				ids = append(ids, mapIdent(step, n))
			}
			var node astcore.DeclNode = &ast.VarDecl{IdentList: ids}
			if len(ids) == 1 && step%2 == 0 {
				node = &ast.TypeDecl{Ident: ids[0]}
			}
			t := x.m.dest()
			dup := t.fixed
			have := map[string]bool{}
			for _, n := range op.Names {
				k := strings.ToLower(n)
				if t.own[k] != nil || have[k] {
					dup = true
				}
				have[k] = true
			}
			err := x.real.Set(node)
			if (err != nil) != dup {
				return fmt.Errorf("%s of %v: error %v, expected one: %v", where, op.Names, err, dup)
			}
			if t.fixed {
				break
			}
			// The names of the declaration are declared, also those before a duplicate:
			// what a rejected declaration leaves behind isn't part of the property.
			for _, id := range ids {
				k := strings.ToLower(id.Name)
				if t.own[k] != nil {
					continue
				}
				got := x.real.Get(id.Name)
				if got == nil || got.Ident != id || got.Node != astcore.Node(node) {
					if !dup {
						return fmt.Errorf("%s: %s isn't declared afterwards", where, id.Name)
					}
					continue
				}
				t.own[k] = got
			}
		}
		for i, x := range maps {
			for _, n := range all {
				if got, want := x.real.Get(n), x.m.get(n); got != want {
					return fmt.Errorf("%s: map %d has for %s %s instead of %s", where, i, n, declStr(got), declStr(want))
				}
			}
		}
	}
	return checkEmbedded()
}

func declStr(d *astcore.Decl) string {
	if d == nil {
		return "nothing"
	}
	return fmt.Sprintf("%s@%v", d.Ident.Name, d.Ident.Location.Start)
}

// ---- lists which are searched by name

type findCase struct {
	Names []string `json:"names"`
	Key   string   `json:"key"`
}

func genFind(t *rapid.T) findCase {
	c := findCase{Key: mapName(t)}
	for i := many(t, 7, 120); i > 0; i-- {
		c.Names = append(c.Names, mapName(t))
	}
	return c
}

func checkFind(c *findCase) error {
	want := -1
	for i, n := range c.Names {
		if strings.ToLower(n) == strings.ToLower(c.Key) {
			want = i
			break
		}
	}
	var ids ast.IdentList
	var decls astcore.Decls
	var uses ast.UsesClause
	var units, gaps ast.Units
	for i, n := range c.Names {
		id := mapIdent(i, n)
		ids = append(ids, id)
		decls = append(decls, astcore.NewDeclaration(id, &ast.VarDecl{IdentList: ast.IdentList{id}}))
		uses = append(uses, &ast.UsesClauseItem{Ident: id})
		u := &ast.Unit{Ident: id, DeclMap: astcore.NewDeclMap()}
		units = append(units, u)
		gaps = append(gaps, u)
		if i%2 == 0 {
			gaps = append(gaps, nil)
		}
	}
	err := func(what string, ok bool) error {
		if ok {
			return nil
		}
		return fmt.Errorf("%s of %q in %q: expected number %d", what, c.Key, c.Names, want)
	}
	id, d, it, u := ids.Find(c.Key), decls.Find(c.Key), uses.Find(c.Key), units.ByName(c.Key)
	if want < 0 {
		for _, e := range []error{err("IdentList.Find", id == nil), err("Decls.Find", d == nil), err("UsesClause.Find", it == nil), err("Units.ByName", u == nil)} {
			if e != nil {
				return e
			}
		}
	} else {
		for _, e := range []error{err("IdentList.Find", id == ids[want]), err("Decls.Find", d == decls[want]), err("UsesClause.Find", it == uses[want]), err("Units.ByName", u == units[want])} {
			if e != nil {
				return e
			}
		}
	}
	comp := gaps.Compact()
	dm := units.DeclMaps()
	names := ids.Names()
	il := uses.IdentList()
	decl2 := astcore.NewDeclarations(ids, &ast.VarDecl{IdentList: ids})
	if len(comp) != len(units) || len(dm) != len(units) || len(names) != len(ids) || len(il) != len(ids) || len(decl2) != len(ids) || len(ids.Children()) != len(ids) || len(uses.Children()) != len(ids) {
		return fmt.Errorf("a list made of %q has another length", c.Names)
	}
	for i := range units {
		if comp[i] != units[i] || fmt.Sprintf("%p", dm[i]) != fmt.Sprintf("%p", units[i].DeclMap) || names[i] != c.Names[i] || il[i] != ids[i] || decl2[i].Ident != ids[i] || ids.Children()[i] != astcore.Node(ids[i]) || uses.Children()[i] != astcore.Node(uses[i]) {
			return fmt.Errorf("a list made of %q has another element at %d", c.Names, i)
		}
	}
	return nil
}

func init() {
	properties = append(properties,
		&Property{ID: "P19", Facets: []Facet{
			facet("histories", "4 to 28 operations (now and then up to 150, with up to 90 names in a declaration) on declaration maps (plain, chained, composed, the built-in one) and contexts (of a program, a unit or another context, over a given map or the built-in one; stacked, unstacked, cloned, importing units); after each, every name is looked up in every map; non-trivial: at least 3 maps and 3 declarations", 60000, 3000000,
				genMapCase, checkMaps, func(c *mapCase) bool {
					n := map[string]int{}
					for _, o := range c.Ops {
						n[o.Op]++
					}
					return n["new"]+n["chained"]+n["composite"]+n["program context"]+n["unit context"]+n["stackable context"]+n["clone"] >= 3 && n["set"]+n["overwrite"] >= 3
				}, func(c *mapCase) []string {
					r := []string{}
					for _, o := range c.Ops {
						r = append(r, o.Op)
					}
					return r
				}),
			facet("lists", "lists of up to 7 names (now and then 120) in several letter cases, searched by name; non-trivial: at least 2 names", 60000, 3000000,
				genFind, checkFind, func(c *findCase) bool { return len(c.Names) >= 2 }, nil),
		}},
	)
}
