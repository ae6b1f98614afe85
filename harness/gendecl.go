package main

import (
	"strings"
)

// ---------------------------------------------------------------------------
// Types

// typeName emits a type identifier which denotes the declaration.
func (g *G) typeName(d *gdecl) (string, int) {
	name := d.name
	if d.kind == "builtin" {
		name = caseVariant(d.name, g.n("case", 2))
		if d.name == "STRING" {
			i := g.stringWord()
			s, k := g.slot(d)
			return g.mark(i) + s, k
		}
	} else {
		name = g.spell(name)
	}
	m, _ := g.ident(name)
	s, k := g.slot(d)
	return m + s, k
}

// stringWord emits STRING, which is a reserved word and names a type.
func (g *G) stringWord() int {
	return g.emit(Tok{S: caseVariant("string", g.n("case", 2)), K: 'v'})
}

var builtinNames = strings.Fields("INTEGER STRING CHAR BOOLEAN BYTE DOUBLE POINTER VARIANT PCHAR WORD REAL CARDINAL ANSISTRING INT64 WIDESTRING CURRENCY OLEVARIANT LONGWORD")
var ordinalBuiltins = strings.Fields("INTEGER BOOLEAN BYTE CHAR WORD SMALLINT INT64 WIDECHAR SHORTINT LONGINT ANSICHAR CARDINAL LONGWORD")

func (g *G) isVisibleType(d *gdecl) bool {
	return d.kind == "type" && g.scope.get(d.name) == d && !strings.EqualFold(d.name, g.noName)
}

// typeRef emits a type identifier: [Unit '.'] Ident.
func (g *G) typeRef() string {
	s, _ := g.typeRefSlot()
	return s
}

func (g *G) typeRefSlot() (string, int) {
	k := g.n("typeref", 9)
	switch {
	case k <= 3:
	case k <= 7:
		vis := g.visible(g.isVisibleType)
		if len(vis) > 0 {
			d := vis[g.n("vistype", len(vis)-1)]
			g.outerRef(d)
			g.feat("usertype")
			return g.typeName(d)
		}
	case k == 8:
		n := typeNames[g.n("undef", len(typeNames)-1)]
		if g.scope.get(n) == nil && !strings.EqualFold(n, g.noName) {
			m, _ := g.ident(g.spell(n))
			s, slot := g.slot(nil)
			if g.inType {
				g.deferred = append(g.deferred, deferredRef{slot, n})
				g.feat("deferred")
			}
			return m + s, slot
		}
	default:
		if s, slot, ok := g.unitType(nil); ok {
			return s, slot
		}
	}
	return g.typeName(g.builtin(builtinNames))
}

// outerRef notes that a type of an outer scope was used in the type section, so
// that the section doesn't declare its name later.
func (g *G) outerRef(d *gdecl) {
	if g.inType && g.sectionTop.get(d.name) != d {
		g.usedOuter[strings.ToLower(d.name)] = true
	}
}

// unitType emits Unit.Type, of a type which fulfils the condition.
func (g *G) unitType(cond func(d *gdecl) bool) (string, int, bool) {
	uses := g.visible(func(d *gdecl) bool {
		if g.scope.get(d.name) != d {
			return false
		}
		switch d.kind {
		case "uses":
			return cond == nil || d.ns != nil
		case "unit", "program":
			return d.ns != nil && d.ns() != nil
		}
		return false
	})
	if len(uses) == 0 {
		return "", 0, false
	}
	u := uses[g.n("unit", len(uses)-1)]
	var d *gdecl
	name := typeNames[g.n("unitt", len(typeNames)-1)]
	if u.ns != nil && u.ns() != nil {
		gm := u.ns()
		var cand []*gdecl
		for _, k := range gm.order {
			if t := gm.m[k]; t != nil && t.kind == "type" && (cond == nil || cond(t)) {
				cand = append(cand, t)
			}
		}
		if len(cand) == 0 {
			return "", 0, false
		}
		d = cand[g.n("unittype", len(cand)-1)]
		name = d.name
	}
	m1, _ := g.ident(g.spell(u.name))
	g.br(".")
	m2, _ := g.ident(g.spell(name))
	s, slot := g.slot(d)
	g.feat("unittype")
	if u.kind != "uses" {
		g.feat("ownunittype")
	}
	return sx("q", m1, m2+s), slot, true
}

// ordinalNow tells whether the type is known to be ordinal at this point.
func (g *G) ordinalNow(d *gdecl) bool {
	for i := 0; i < 50 && d != nil && d.ti != nil; i++ {
		if d.ti.kind != "alias" {
			return d.ti.kind == "ordinal"
		}
		d = g.slots[d.ti.slot]
	}
	return false
}

type typeOpts struct {
	closed  bool // must not end with an expression
	noEnum  bool
	noProc  bool
	ordinal bool
	noArray bool // of a parameter, ARRAY means an open array
}

func (g *G) typ(o typeOpts, depth int) (string, *ginfo) {
	if o.ordinal {
		return g.ordinalType(o, depth)
	}
	if !o.noArray && g.spiking("type") {
		g.feat("spiketype")
		f := g.fuel
		g.fuel = 0
		s, ti := g.nestType(o, 5+g.n("levels", 45))
		g.fuel = f / 2
		return s, ti
	}
	max := 2
	if depth < 3 && g.spend(2) {
		max = 15
	}
	kind := 0
	if g.forceType > 0 {
		kind, g.forceType = g.forceType-1, 0
	} else {
		kind = g.n("type", max)
	}
	switch kind {
	case 0, 1, 2:
	case 3, 4:
		if !o.noEnum {
			return g.enumType(), &ginfo{kind: "ordinal"}
		}
	case 5:
		if !o.closed {
			return g.subrange(false), &ginfo{kind: "ordinal", open: true}
		}
	case 6, 7:
		if !o.noArray {
			return g.arrayType(o, depth)
		}
	case 8:
		return g.packedOr(func() (string, *ginfo) {
			g.kw("set")
			g.must("of")
			oo := o
			s, ti := g.ordinalType(oo, depth+1)
			g.feat("set of")
			return sx("setof", s), &ginfo{kind: "set", open: ti.open}
		})
	case 9:
		return g.packedOr(func() (string, *ginfo) {
			g.kw("file")
			g.must("of")
			g.feat("file of")
			return sx("fileof", g.typeRef()), &ginfo{kind: "file"}
		})
	case 10, 11:
		return g.packedOr(func() (string, *ginfo) {
			g.must("record")
			s := g.fieldList(o, depth, false)
			g.must("end")
			g.feat("record")
			return sx("record", s), &ginfo{kind: "record"}
		})
	case 12:
		i := g.stringWord()
		m := g.mark(i)
		s, _ := g.slot(builtins["string"])
		g.br("[")
		e := g.constD()
		g.br("]")
		g.feat("fixedstring")
		return sx("fixed", m+s, e), &ginfo{kind: "string"}
	case 13:
		g.p("^")
		g.feat("pointer")
		return sx("ptr", g.typeRef()), &ginfo{kind: "pointer"}
	default:
		if !o.noProc {
			return g.procType(), &ginfo{kind: "proc"}
		}
	}
	s, slot := g.typeRefSlot()
	return s, &ginfo{kind: "alias", slot: slot}
}

// nestType emits a type with k levels of nesting.
func (g *G) nestType(o typeOpts, k int) (string, *ginfo) {
	if k == 0 {
		g.fuel = 10
		s, ti := g.typ(o, 2)
		g.fuel = 0
		return s, ti
	}
	if g.chance("record", 1, 3) {
		return g.packedOr(func() (string, *ginfo) {
			g.must("record")
			ids := g.plainIdents(map[string]bool{})
			g.br(":")
			t, _ := g.nestType(typeOpts{noEnum: o.noEnum}, k-1)
			if g.chance("lastsemi", 1, 2) {
				g.p(";")
			}
			g.must("end")
			return sx("record", lst([]string{sx("f", ids, t)})), &ginfo{kind: "record"}
		})
	}
	return g.packedOr(func() (string, *ginfo) {
		g.kw("array")
		idx := []string{}
		if g.chance("indexed", 1, 2) {
			g.br("[")
			s, _ := g.ordinalType(typeOpts{noEnum: o.noEnum}, 3)
			idx = append(idx, s)
			g.br("]")
		}
		g.must("of")
		s, ti := g.nestType(o, k-1)
		return sx("array", lst(idx), s), &ginfo{kind: "array", open: ti.open}
	})
}

func (g *G) packedOr(f func() (string, *ginfo)) (string, *ginfo) {
	p := g.chance("packed", 1, 4)
	if p {
		g.kw("packed")
		g.feat("packed")
	}
	s, ti := f()
	return packed(s, p), ti
}

func (g *G) ordinalType(o typeOpts, depth int) (string, *ginfo) {
	max := 1
	if g.spend(1) {
		max = 6
	}
	switch g.n("ord", max) {
	case 2, 3:
		vis := g.visible(func(d *gdecl) bool { return g.isVisibleType(d) && g.ordinalNow(d) })
		if len(vis) > 0 {
			d := vis[g.n("vistype", len(vis)-1)]
			g.outerRef(d)
			s, slot := g.typeName(d)
			g.feat("ordinaltype")
			return s, &ginfo{kind: "alias", slot: slot}
		}
	case 6:
		if s, slot, ok := g.unitType(g.ordinalNow); ok {
			g.feat("ordinalunittype")
			return s, &ginfo{kind: "alias", slot: slot}
		}
	case 4:
		if !o.closed {
			return g.subrange(true), &ginfo{kind: "ordinal", open: true}
		}
	case 5:
		if !o.noEnum {
			return g.enumType(), &ginfo{kind: "ordinal"}
		}
	}
	d := g.builtin(ordinalBuiltins)
	s, slot := g.typeName(d)
	return s, &ginfo{kind: "alias", slot: slot}
}

func (g *G) enumType() string {
	g.br("(")
	n := g.count("enum", 1, 4)
	r := []string{}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.p(",")
		}
		pool := valueNames
		if g.chance("builtinname", 1, 12) {
			pool = shadowNames
		}
		d, m := g.declare("enum", pool)
		if g.chance("enumval", 1, 5) {
			g.p("=")
			m = sx("=", m, g.constD())
		}
		g.define(d)
		r = append(r, m)
	}
	g.br(")")
	g.feat("enum")
	return sx("enum", r...)
}

// subrange: the lower bound begins with a sign, a literal or a name.
func (g *G) subrange(ordinal bool) string {
	g.feat("subrange")
	g.lowHead = 1
	if ordinal {
		g.lowHead = 2
	}
	lo := g.simple(g.opts.exprMax - 1)
	g.br("..")
	return sx("range", lo, g.constD())
}

func (g *G) arrayType(o typeOpts, depth int) (string, *ginfo) {
	return g.packedOr(func() (string, *ginfo) {
		g.kw("array")
		idx := []string{}
		if g.chance("indexed", 2, 3) {
			g.br("[")
			n := g.count("dims", 1, 3)
			for i := 0; i < n; i++ {
				if i > 0 {
					g.p(",")
				}
				s, _ := g.ordinalType(typeOpts{noEnum: o.noEnum}, depth+1)
				idx = append(idx, s)
			}
			g.br("]")
		}
		g.must("of")
		s, ti := g.typ(o, depth+1)
		g.feat("array")
		return sx("array", lst(idx), s), &ginfo{kind: "array", open: ti.open}
	})
}

// fieldList emits the fields of a record. inVariant: it ends with ')'.
func (g *G) fieldList(o typeOpts, depth int, inVariant bool) string {
	n := g.count("fields", 0, 3)
	r := []string{}
	used := map[string]bool{}
	variant := depth < 3 && g.chance("variant", 1, 4)
	for i := 0; i < n; i++ {
		ids := g.plainIdents(used)
		g.br(":")
		t, _ := g.typ(typeOpts{noEnum: o.noEnum}, depth+1)
		r = append(r, sx("f", ids, t))
		if i < n-1 || variant || g.chance("lastsemi", 1, 2) {
			g.p(";")
		}
	}
	if variant {
		g.must("case")
		id := none
		if g.chance("tag", 1, 2) {
			id, _ = g.ident(g.plainName(used))
			g.emit(Tok{S: ":", K: 'p', Soft: true})
			g.feat("tagfield")
		}
		// Without a tag field the type begins with an identifier.
		oo := typeOpts{noEnum: true, closed: id == none}
		t, _ := g.ordinalType(oo, depth+1)
		g.must("of")
		m := g.count("variants", 1, 3)
		vs := []string{}
		for i := 0; i < m; i++ {
			k := g.count("consts", 1, 2)
			cs := []string{}
			for j := 0; j < k; j++ {
				if j > 0 {
					g.p(",")
				}
				cs = append(cs, g.constD())
			}
			g.br(":")
			g.br("(")
			fl := g.fieldList(o, depth+1, true)
			g.br(")")
			vs = append(vs, sx("v", lst(cs), fl))
			if i < m-1 || g.chance("lastsemi", 1, 2) {
				g.p(";")
			}
		}
		g.feat("variant")
		r = append(r, sx("case", id, t, lst(vs)))
	}
	return lst(r)
}

func (g *G) plainName(used map[string]bool) string {
	var free []string
	pool := fieldNames
	if g.chance("words", 1, 16) {
		g.feat("wordname")
		pool = wordNames
	} else if g.chance("newname", 1, 32) {
		return g.randomName()
	}
	for _, n := range pool {
		if !used[n] {
			free = append(free, n)
		}
	}
	var n string
	if len(free) == 0 {
		g.seq++
		n = "fld" + itoa(g.seq)
	} else {
		n = free[g.n("field", len(free)-1)]
	}
	used[n] = true
	return n
}

func (g *G) plainIdents(used map[string]bool) string {
	k := g.count("idents", 1, 2)
	ids := []string{}
	for j := 0; j < k; j++ {
		if j > 0 {
			g.p(",")
		}
		m, _ := g.ident(g.plainName(used))
		ids = append(ids, m)
	}
	return lst(ids)
}

func (g *G) procType() string {
	g.feat("proctype")
	outer := g.scope
	g.scope = outer.push()
	defer func() { g.scope = outer }()
	isFunc := g.chance("function", 1, 2)
	tag := "proctype"
	if isFunc {
		tag = "functype"
		g.kw("function")
	} else {
		g.kw("procedure")
	}
	ps := g.optParams()
	ret := none
	if isFunc {
		g.br(":")
		ret = g.typeRef()
	}
	s := sx(tag, ps, ret)
	if g.chance("ofobject", 1, 3) {
		g.kw("of")
		g.must("object")
		s = sx("ofobject", s)
		g.feat("ofobject")
	}
	return s
}

func (g *G) optParams() string {
	if !g.chance("params", 2, 3) {
		return "[]"
	}
	return g.params("(", ")", 0)
}

// params emits formal parameters, which go to the current scope.
func (g *G) params(open, close string, min int) string {
	g.br(open)
	n := g.count("params", min, 3)
	r := []string{}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.br(";")
		}
		opt := none
		switch g.n("opt", 5) {
		case 3:
			opt = "VAR"
		case 4:
			opt = "CONST"
		case 5:
			opt = "OUT"
		}
		if opt != none {
			g.kw(strings.ToLower(opt))
			g.feat("param" + opt)
		}
		k := g.count("idents", 1, 3)
		var ds []*gdecl
		ids := []string{}
		for j := 0; j < k; j++ {
			if j > 0 {
				g.p(",")
			}
			d, m := g.declareNot("param", g.valuePool(), ds)
			ds = append(ds, d)
			ids = append(ids, m)
		}
		t, def := none, none
		if !g.chance("untyped", 1, 8) {
			g.br(":")
			switch {
			case g.chance("arrayof", 1, 6):
				g.kw("array")
				g.must("of")
				if g.chance("ofconst", 1, 3) {
					g.must("const")
					t = sx("arrayof", none)
					g.feat("arrayofconst")
				} else {
					t = sx("arrayof", g.typeRef())
					g.feat("openarray")
				}
			case g.chance("longtype", 1, 6):
				t, _ = g.typ(typeOpts{noEnum: true, closed: true, noProc: true, noArray: true}, 2)
			default:
				t = g.typeRef()
			}
			if g.chance("default", 1, 5) {
				g.p("=")
				def = g.constD()
				g.feat("paramdefault")
			}
		}
		for _, d := range ds {
			g.define(d)
		}
		r = append(r, sx("p", opt, lst(ids), t, def))
		g.feat("param")
	}
	g.br(close)
	return lst(r)
}

// declareNot is declare, but the name is none of the given declarations.
func (g *G) declareNot(kind string, pool []string, ds []*gdecl) (*gdecl, string) {
	top := g.scope.top()
	var undo []string
	for _, d := range ds {
		k := strings.ToLower(d.name)
		if !top.reserved[k] {
			top.reserved[k] = true
			undo = append(undo, k)
		}
	}
	d, m := g.declare(kind, pool)
	for _, k := range undo {
		delete(top.reserved, k)
	}
	return d, m
}

// ---------------------------------------------------------------------------
// Classes

type gmember struct {
	decl    *gdecl
	private bool
	isProp  bool
}

type gclass struct {
	members []*gmember
	parent  *gdecl // declaration of the parent class, or of a name for it
}

func (g *G) classOf(d *gdecl) *gclass {
	for i := 0; i < 50 && d != nil && d.ti != nil; i++ {
		switch d.ti.kind {
		case "class":
			return d.class
		case "alias":
			d = g.slots[d.ti.slot]
		default:
			return nil
		}
	}
	return nil
}

func (g *G) findMember(c *gclass, name string) *gdecl {
	for i := 0; i < 50 && c != nil; i++ {
		for _, m := range c.members {
			if strings.EqualFold(m.decl.name, name) && (i == 0 || !m.private) {
				return m.decl
			}
		}
		c = g.classOf(c.parent)
	}
	return nil
}

func (g *G) membersOf(c *gclass) []*gdecl {
	seen := map[string]bool{}
	var r []*gdecl
	for i := 0; i < 50 && c != nil; i++ {
		for _, m := range c.members {
			k := strings.ToLower(m.decl.name)
			if (i == 0 || !m.private) && !seen[k] {
				seen[k] = true
				r = append(r, m.decl)
			}
		}
		c = g.classOf(c.parent)
	}
	return r
}

// className emits the name of a class for a heritage: a class which is visible,
// or one which isn't known.
func (g *G) className() (string, *gdecl) {
	vis := g.visible(func(d *gdecl) bool { return g.isVisibleType(d) && g.classOf(d) != nil })
	if len(vis) > 0 && g.chance("ownparent", 3, 4) {
		d := vis[g.n("parent", len(vis)-1)]
		g.outerRef(d)
		s, _ := g.typeName(d)
		g.feat("inherits")
		return s, d
	}
	if g.chance("unitparent", 1, 3) {
		if s, slot, ok := g.unitType(func(d *gdecl) bool { return g.classOf(d) != nil }); ok {
			g.feat("inherits")
			g.feat("unitclass")
			return s, g.slots[slot]
		}
		if us := g.visible(func(d *gdecl) bool { return d.kind == "uses" && d.ns == nil && g.scope.get(d.name) == d }); len(us) > 0 {
			m1, _ := g.ident(g.spell(us[g.n("unit", len(us)-1)].name))
			g.br(".")
			m2, _ := g.ident(g.spell(typeNames[g.n("unitt", len(typeNames)-1)]))
			s, _ := g.slot(nil)
			g.feat("unitclass")
			return sx("q", m1, m2+s), nil
		}
	}
	m, _ := g.ident(g.spell(pick(g.t, "base", []string{"TObject", "TComponent", "IThing"})))
	s, _ := g.slot(nil)
	return m + s, nil
}

// laterClass emits the name of a type which may be declared later in the section.
func (g *G) laterClass() (string, bool) {
	n := typeNames[g.n("undef", len(typeNames)-1)]
	if !g.inType || g.scope.get(n) != nil || strings.EqualFold(n, g.noName) {
		return "", false
	}
	m, _ := g.ident(g.spell(n))
	s, slot := g.slot(nil)
	g.deferred = append(g.deferred, deferredRef{slot, n})
	g.feat("deferred")
	return m + s, true
}

var memberPool = strings.Fields("FA FB FC GetA SetA Run Prop Item Caption Hidden Create Free Width")

func (g *G) memberName(c *gclass) string {
	used := map[string]bool{}
	for _, m := range c.members {
		used[strings.ToLower(m.decl.name)] = true
	}
	var free []string
	pool := memberPool
	if g.chance("words", 1, 12) {
		g.feat("wordname")
		pool = wordNames
	} else if g.chance("newname", 1, 24) {
		return g.randomName()
	}
	for _, n := range pool {
		if !used[strings.ToLower(n)] {
			free = append(free, n)
		}
	}
	if len(free) == 0 {
		g.seq++
		return "M" + itoa(g.seq)
	}
	return free[g.n("member", len(free)-1)]
}

func (g *G) member(c *gclass, kind string, private bool) (string, *gmember) {
	n := g.memberName(c)
	m, tok := g.ident(n)
	return m, &gmember{decl: &gdecl{kind: kind, name: n, file: g.curNo, tok: tok}, private: private, isProp: kind == "property"}
}

// classType emits CLASS ... and returns the class. short: it may be without END.
func (g *G) classType() (string, *gclass, bool) {
	g.kw("class")
	g.feat("class")
	c := &gclass{}
	her := []string{}
	if g.chance("heritage", 2, 3) {
		g.br("(")
		n := g.count("parents", 1, 3)
		if n > 1 && !g.chance("interfaces", 1, 3) {
			n = 1
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				g.p(",")
			}
			s, d := g.className()
			if i == 0 {
				c.parent = d
			}
			her = append(her, s)
		}
		g.br(")")
		if g.chance("shortclass", 1, 8) {
			g.feat("shortclass")
			return sx("class", lst(her), "[]"), c, true
		}
	}
	n := g.count("sections", 0, 4)
	secs := []string{}
	for i := 0; i < n; i++ {
		vis := []string{"default", "PUBLIC", "PRIVATE", "PROTECTED", "PUBLISHED"}[g.n("visibility", 4)]
		if i > 0 && vis == "default" {
			vis = "PUBLIC"
		}
		secs = append(secs, g.classSection(c, vis, i == n-1))
	}
	// An empty first section without visibility is no section.
	if len(secs) > 0 && secs[0] == sx("sec", "default") {
		secs = secs[1:]
	}
	if len(secs) > 0 {
		g.must("end")
	} else {
		g.kw("end") // without it, it is a short class
	}
	// The semicolons of the members are needed, apart from the one before END.
	for _, i := range g.semis {
		if i < len(g.cur.toks)-2 {
			g.cur.toks[i].Must = true
		}
	}
	g.semis = nil
	return sx("class", lst(her), lst(secs)), c, false
}

func (g *G) memberSemi() { g.semis = append(g.semis, g.p(";")) }

func (g *G) classSection(c *gclass, vis string, last bool) string {
	private := vis == "PRIVATE"
	args := []string{vis}
	if vis != "default" {
		g.kw(vis)
		g.feat(vis)
	}
	nf, nm, np := g.count("cfields", 0, 2), g.count("methods", 0, 2), g.count("props", 0, 2)
	var pending []*gmember
	for i := 0; i < nf; i++ {
		k := g.count("idents", 1, 2)
		ids := []string{}
		for j := 0; j < k; j++ {
			if j > 0 {
				g.p(",")
			}
			m, mb := g.member(c, "field", private)
			c.members = append(c.members, mb)
			ids = append(ids, m)
		}
		g.br(":")
		t, _ := g.typ(typeOpts{}, 1)
		args = append(args, sx("f", lst(ids), t))
		if !(last && i == nf-1 && nm == 0 && np == 0) || g.chance("lastsemi", 1, 2) {
			g.memberSemi()
		}
		g.feat("classfield")
	}
	for i := 0; i < nm; i++ {
		args = append(args, g.classMethod(c, private))
	}
	for i := 0; i < np; i++ {
		s, mb := g.classProperty(c, private, append([]*gmember{}, pending...))
		pending = append(pending, mb)
		args = append(args, s)
	}
	c.members = append(c.members, pending...)
	return sx("sec", args...)
}

func (g *G) classMethod(c *gclass, private bool) string {
	tag := "m"
	if g.chance("classmethod", 1, 6) {
		g.kw("class")
		tag = "classm"
		g.feat("classmethod")
	}
	outer := g.scope
	g.scope = outer.push()
	defer func() { g.scope = outer }()
	var h string
	switch g.n("method", 5) {
	case 0, 1:
		g.kw("procedure")
		m, mb := g.member(c, "method", private)
		c.members = append(c.members, mb)
		h = sx("proc", m, g.optParams(), none)
	case 2, 3:
		g.kw("function")
		m, mb := g.member(c, "method", private)
		c.members = append(c.members, mb)
		ps := g.optParams()
		g.br(":")
		h = sx("func", m, ps, g.typeRef())
	case 4:
		g.kw("constructor")
		m, mb := g.member(c, "method", private)
		c.members = append(c.members, mb)
		h = sx("ctor", m, g.optParams())
		g.feat("constructor")
	default:
		g.kw("destructor")
		m, mb := g.member(c, "method", private)
		c.members = append(c.members, mb)
		h = sx("dtor", m)
		g.feat("destructor")
	}
	g.memberSemi()
	n := g.count("directives", 0, 2)
	dirs := []string{}
	for i := 0; i < n; i++ {
		d := pick(g.t, "directive", []string{"virtual", "override", "abstract", "overload", "reintroduce"})
		g.kw(d)
		g.memberSemi()
		dirs = append(dirs, strings.ToUpper(d))
		g.feat("methoddirective")
	}
	g.feat("method")
	return sx(tag, h, lst(dirs))
}

func (g *G) classProperty(c *gclass, private bool, pending []*gmember) (string, *gmember) {
	g.kw("property")
	cc := &gclass{members: append(append([]*gmember{}, c.members...), pending...), parent: c.parent}
	m, mb := g.member(cc, "property", private)
	intf, index, read, write, stored, def, impl := none, none, none, none, none, none, none
	if g.chance("interface", 4, 5) {
		outer := g.scope
		ps := "[]"
		if g.chance("indexparams", 1, 4) {
			g.scope = outer.push()
			ps = g.params("[", "]", 1)
			g.feat("arrayproperty")
		}
		g.br(":")
		intf = sx("if", ps, g.typeRef())
		g.scope = outer
	}
	if g.chance("index", 1, 6) {
		g.kw("index")
		index = g.constD()
		g.feat("index")
	}
	ref := func(word string) string {
		ms := g.membersOf(c)
		if len(ms) == 0 {
			return none
		}
		g.kw(word)
		d := ms[g.n("memberref", len(ms)-1)]
		mm, _ := g.ident(g.spell(d.name))
		s, _ := g.slot(d)
		g.feat(word)
		return mm + s
	}
	if g.chance("read", 2, 3) {
		read = ref("read")
	}
	if g.chance("write", 1, 2) {
		write = ref("write")
	}
	if g.chance("stored", 1, 5) {
		switch g.n("storedkind", 2) {
		case 0:
			g.kw("stored")
			g.emit(Tok{S: "True", K: 'k'})
			stored = "true"
		case 1:
			g.kw("stored")
			g.emit(Tok{S: "False", K: 'k'})
			stored = "false"
		default:
			stored = ref("stored")
		}
	}
	switch g.n("defaultspec", 7) {
	case 6:
		g.kw("default")
		def = g.constD()
		g.feat("default")
	case 7:
		g.kw("nodefault")
		def = "nodefault"
		g.feat("nodefault")
	}
	if g.chance("implements", 1, 10) {
		g.kw("implements")
		impl = g.typeRef()
		g.feat("implements")
	}
	g.memberSemi()
	g.feat("property")
	return sx("prop", m, intf, index, read, write, stored, def, impl), mb
}

// ---------------------------------------------------------------------------
// Declaration sections

func (g *G) constSection() string {
	g.kw("const")
	n := g.count("consts", 1, 3)
	r := []string{}
	for i := 0; i < n; i++ {
		d, m := g.declare("const", g.valuePool())
		g.define(d)
		old := g.noName
		g.noName = d.name
		t := none
		if g.chance("typed", 1, 3) {
			g.br(":")
			t, _ = g.typ(typeOpts{closed: true}, 1)
		}
		g.br("=")
		e := g.exprD(1)
		g.noName = old
		g.br(";")
		r = append(r, sx("c", m, t, e))
	}
	g.feat("const")
	return sx("const", r...)
}

func (g *G) varIdents(kind string) (string, []*gdecl) {
	k := g.count("idents", 1, 3)
	var ds []*gdecl
	ids := []string{}
	for j := 0; j < k; j++ {
		if j > 0 {
			g.p(",")
		}
		d, m := g.declareNot(kind, g.valuePool(), ds)
		ds = append(ds, d)
		ids = append(ids, m)
	}
	for _, d := range ds {
		g.scope.top().reserved[strings.ToLower(d.name)] = true
	}
	return lst(ids), ds
}

func (g *G) defineAll(ds []*gdecl) {
	for _, d := range ds {
		delete(g.scope.top().reserved, strings.ToLower(d.name))
		g.define(d)
	}
}

func (g *G) varSection() string {
	g.kw("var")
	n := g.count("vars", 1, 3)
	r := []string{}
	for i := 0; i < n; i++ {
		ids, ds := g.varIdents("var")
		g.br(":")
		t, ti := g.typ(typeOpts{}, 1)
		abs, init := none, none
		switch k := g.n("varrest", 7); {
		case k == 6:
			g.kw("absolute")
			nm, _ := g.valueName()
			abs, _ = g.ident(nm)
			g.feat("absolute")
		case k == 7 && !ti.open:
			g.p("=")
			init = g.exprD(1)
			g.feat("varinit")
		}
		g.defineAll(ds)
		g.br(";")
		r = append(r, sx("v", ids, t, abs, init))
	}
	g.feat("var")
	return sx("var", r...)
}

func (g *G) threadVarSection() string {
	g.kw("threadvar")
	n := g.count("threadvars", 1, 2)
	r := []string{}
	for i := 0; i < n; i++ {
		ids, ds := g.varIdents("threadvar")
		g.br(":")
		t, _ := g.typ(typeOpts{}, 1)
		g.defineAll(ds)
		g.br(";")
		r = append(r, sx("v", ids, t))
	}
	g.feat("threadvar")
	return sx("threadvar", r...)
}

func (g *G) labelSection() string {
	g.kw("label")
	d, m := g.declare("label", labelNames)
	g.br(";")
	g.define(d)
	g.feat("label")
	return sx("label", m)
}

// freshType picks a name for a type. A name which is waited for is preferred.
func (g *G) freshType() string {
	free := []string{}
	for _, n := range typeNames {
		if !g.scope.top().taken(n) && !g.usedOuter[strings.ToLower(n)] && !strings.EqualFold(n, g.noName) {
			free = append(free, n)
		}
	}
	if len(free) == 0 {
		g.seq++
		return "TType" + itoa(g.seq)
	}
	for _, d := range g.deferred {
		for _, n := range free {
			if strings.EqualFold(n, d.name) && g.chance("waited", 1, 2) {
				return n
			}
		}
	}
	return free[g.n("typename", len(free)-1)]
}

func (g *G) typeSection() string {
	g.kw("type")
	g.inType, g.deferred, g.usedOuter, g.sectionTop = true, nil, map[string]bool{}, g.scope.top()
	n := g.count("types", 1, 4)
	r := []string{}
	var fwds []*gdecl
	for i := 0; i < n || len(fwds) > 0; i++ {
		if len(fwds) > 0 && (i >= n || g.chance("complete", 1, 3)) {
			fwd := fwds[0]
			fwds = fwds[1:]
			r = append(r, g.typeDecl(fwd))
			continue
		}
		if i < n-1 && g.opts.classes && g.chance("forward", 1, 8) {
			nm := g.freshType()
			m, tok := g.ident(nm)
			g.br("=")
			g.kw("class")
			g.br(";")
			d := &gdecl{kind: "type", name: nm, file: g.curNo, tok: tok, ti: &ginfo{kind: "class"}, forward: true}
			g.define(d)
			fwds = append(fwds, d)
			r = append(r, sx("t", m, "(forwardclass)", none))
			g.feat("forwardclass")
			continue
		}
		r = append(r, g.typeDecl(nil))
	}
	g.inType = false
	for _, d := range g.deferred {
		g.slots[d.slot] = g.scope.get(d.name)
	}
	g.deferred = nil
	g.feat("type")
	return sx("type", r...)
}

func (g *G) typeDecl(fwd *gdecl) string {
	var nm string
	if fwd != nil {
		nm = g.spell(fwd.name)
	} else {
		nm = g.freshType()
	}
	m, tok := g.ident(nm)
	g.br("=")
	d := &gdecl{kind: "type", name: nm, file: g.curNo, tok: tok}
	if g.scope.top().reserved[strings.ToLower(nm)] == false {
		g.scope.top().reserved[strings.ToLower(nm)] = true
		defer delete(g.scope.top().reserved, strings.ToLower(nm))
	}
	short := false
	var t string
	switch {
	case fwd != nil || g.opts.classes && g.chance("classtype", g.opts.classBias, 10):
		var c *gclass
		t, c, short = g.classType()
		d.ti, d.class = &ginfo{kind: "class"}, c
		if fwd != nil {
			fwd.class, fwd.forward = c, false
		}
	case g.opts.classes && g.chance("classref", 1, 10):
		g.kw("class")
		g.must("of")
		var s string
		ok := false
		if g.chance("laterclass", 1, 3) {
			s, ok = g.laterClass()
		}
		if !ok {
			s, _ = g.className()
		}
		t = sx("classof", s)
		d.ti = &ginfo{kind: "classref"}
		g.feat("classof")
	default:
		if g.chance("typetype", 1, 10) {
			g.kw("type")
			g.feat("typetype")
		}
		t, d.ti = g.typ(typeOpts{}, 0)
	}
	g.define(d)
	port := none
	if !short && g.chance("portability", 1, 8) {
		port = pick(g.t, "port", []string{"platform", "deprecated", "library"})
		g.kw(port)
		g.feat("portability")
	}
	g.br(";")
	return sx("t", m, t, port)
}

// ---- routines

var routineNames = strings.Fields("Proc Func Calc Foo bar")
var plainDirectives = strings.Fields("stdcall cdecl pascal register safecall overload export far near")

// routine emits a procedure or function. heading: only its heading.
func (g *G) routine(depth int, heading bool) string {
	isFunc := g.chance("function", 1, 2)
	kw := "procedure"
	tag := "proc"
	if isFunc {
		kw, tag = "function", "func"
	}
	g.kw(kw)
	outer := g.scope
	inner := outer.push()
	kind := "routine"
	if heading {
		kind = "heading"
	}
	// A routine can be declared again (overload, forward).
	var d *gdecl
	var m string
	if rs := g.ownRoutines(); len(rs) > 0 && g.chance("again", 1, 8) {
		m1, tok := g.ident(g.spell(rs[g.n("which", len(rs)-1)].name))
		d, m = &gdecl{kind: kind, name: g.cur.toks[tok].S, file: g.curNo, tok: tok}, m1
		g.feat("overloaded")
	} else {
		d, m = g.declare(kind, routineNames)
	}
	d.routine = true
	g.scope = inner
	inner.top().reserved[strings.ToLower(d.name)] = true
	// Inside, the name means the outer declaration until the heading is complete.
	oldNo := g.noName
	g.noName = d.name
	ps := g.optParams()
	ret := none
	if isFunc {
		g.br(":")
		ret = g.typeRef()
	}
	g.noName = oldNo
	g.br(";")
	delete(inner.top().reserved, strings.ToLower(d.name))
	inner.top().set(d)
	nd := g.count("directives", 0, 2)
	dirs := []string{}
	for i := 0; i < nd; i++ {
		x := pick(g.t, "directive", plainDirectives)
		g.kw(x)
		g.br(";")
		dirs = append(dirs, strings.ToUpper(x))
		g.feat("directive")
	}
	ext := none
	noBlock := heading
	if k := g.n("extfwd", 9); k >= 8 && (heading || g.nest == 0) {
		noBlock = true
		if k == 8 && !heading {
			g.kw("forward")
			dirs = append(dirs, "FORWARD")
			g.feat("forward")
		} else {
			g.kw("external")
			dirs = append(dirs, "EXTERNAL")
			g.feat("external")
			switch g.n("extkind", 3) {
			case 1:
				ext = sx("ext", g.extLib(), none, none)
			case 2:
				l := g.extLib()
				g.kw("name")
				ext = sx("ext", l, g.extLib(), none)
			case 3:
				l := g.extLib()
				g.kw("index")
				i := g.n("extindex", 99)
				if g.chance("bigindex", 1, 4) {
					i = g.n("extindex", 1<<uint(4+g.n("bits", 44)))
				}
				zeros := ""
				if i >= 0 && g.chance("zeros", 1, 6) {
					zeros = "00"[g.n("zeros", 1):]
				}
				g.emit(Tok{S: zeros + itoa(i), K: 'n'})
				ext = sx("ext", l, none, itoa(i))
			}
		}
		g.br(";")
		if g.chance("dirsafter", 1, 4) {
			for i := g.n("dirsafter", 1); i >= 0; i-- {
				x := pick(g.t, "directive", plainDirectives)
				g.kw(x)
				g.br(";")
				dirs = append(dirs, strings.ToUpper(x))
				g.feat("directiveafter")
			}
		}
	}
	h := sx(tag, m, ps, ret)
	dd := lst(dirs) + " " + ext
	var s string
	switch {
	case heading:
		s = sx("heading", h, dd)
		g.feat("heading")
	case noBlock:
		s = sx("routine", h, dd, emptyBlock)
	default:
		s = sx("routine", h, dd, g.block(depth+1, false))
		g.br(";")
		g.feat("routine")
	}
	g.scope = outer
	if old := outer.top().get(d.name); old == nil {
		g.define(d)
	}
	return s
}

var emptyBlock = sx("block", "[]", "[]", none, "[]")

func (g *G) extLib() string {
	l := pick(g.t, "lib", []string{"'user32.dll'", "'lib'", "'it''s'"})
	g.emit(Tok{S: l, K: 's'})
	return l
}

func (g *G) ownRoutines() []*gdecl {
	var r []*gdecl
	for _, k := range g.scope.top().order {
		if d := g.scope.top().m[k]; d != nil && d.routine && !g.keepFree(d.name) {
			r = append(r, d)
		}
	}
	return r
}

// ---- blocks

func (g *G) declSections(depth int) string {
	n := g.count("decls", 0, g.opts.maxDecls)
	if g.nest == 0 && g.spiking("routine") {
		g.nest = 4 + g.n("levels", 25)
		g.feat("spikeroutine")
	}
	r := []string{}
	if g.nest > 0 {
		// routines in routines
		g.nest--
		n = 0
		r = append(r, g.routine(1, false))
	}
	for i := 0; i < n; i++ {
		g.spend(2)
		switch k := g.opts.decls[g.n("decl", len(g.opts.decls)-1)]; k {
		case 'c':
			r = append(r, g.constSection())
		case 'v':
			r = append(r, g.varSection())
		case 'w':
			r = append(r, g.threadVarSection())
		case 't':
			r = append(r, g.typeSection())
		case 'l':
			r = append(r, g.labelSection())
		case 'r':
			if depth < 3 {
				r = append(r, g.routine(depth, false))
			}
		}
	}
	return lst(r)
}

// interfaceDecls emits the declarations of an interface section.
func (g *G) interfaceDecls() string {
	n := 0
	if g.fuel > 0 {
		n = g.n("decls", g.opts.maxDecls)
	}
	r := []string{}
	for i := 0; i < n; i++ {
		g.spend(2)
		switch g.opts.decls[g.n("decl", len(g.opts.decls)-1)] {
		case 'c':
			r = append(r, g.constSection())
		case 'v':
			r = append(r, g.varSection())
		case 'w':
			r = append(r, g.threadVarSection())
		case 't':
			r = append(r, g.typeSection())
		case 'r':
			r = append(r, g.routine(0, true))
		}
	}
	return lst(r)
}

func (g *G) exportsStmts() string {
	n := 0
	if g.opts.exports && g.chance("exports", 1, 5) {
		n = g.count("exportstmts", 1, 2)
	}
	r := []string{}
	for i := 0; i < n; i++ {
		g.kw("exports")
		k := g.count("exported", 1, 3)
		it := []string{}
		for j := 0; j < k; j++ {
			if j > 0 {
				g.p(",")
			}
			nm, _ := g.valueName()
			m, _ := g.ident(nm)
			name, index := none, none
			opt := g.n("exportopt", 4)
			if opt == 1 || opt == 3 {
				g.kw("name")
				name = g.constD()
			}
			if opt >= 2 {
				g.kw("index")
				index = g.constD()
			}
			if opt == 4 {
				g.kw("name")
				name = g.constD()
			}
			it = append(it, sx("x", m, name, index))
		}
		g.br(";")
		r = append(r, sx("exports", it...))
		g.feat("exports")
	}
	return lst(r)
}

func (g *G) block(depth int, top bool) string {
	ds := g.declSections(depth)
	e1, e2 := "[]", "[]"
	if top {
		e1 = g.exportsStmts()
	}
	if f := g.opts.bodyFuel / (1 + 3*depth); g.fuel < f {
		g.fuel = f
	}
	var body string
	if g.chance("asmbody", 1, 15) {
		g.asmBlock()
		body = "(asm)"
		g.feat("asm")
	} else {
		g.must("begin")
		body = sx("begin", g.stmts(0))
		g.must("end")
	}
	if top {
		e2 = g.exportsStmts()
	}
	return sx("block", ds, e1, body, e2)
}

var extUnits = strings.Fields("SysUtils Classes Windows")

// usesExternal emits a uses clause of units which are not part of the project.
func (g *G) usesItem(name string, m *gmap) (string, *gdecl) {
	mk, tok := g.ident(name)
	d := &gdecl{kind: "uses", name: name, file: g.curNo, tok: tok}
	m.set(d)
	return sx("u", mk, none), d
}

// program emits a program which uses no units of its own.
func (g *G) program() string {
	g.openFile("main.dpr")
	items := newGmap()
	g.scope = &gscope{maps: []*gmap{items, builtinMap}}
	g.must("program")
	id, tok := g.ident(g.progName())
	if g.chance("progparams", 1, 8) {
		g.br("(")
		g.emit(Tok{S: "Input", K: 'v'})
		g.p(",")
		g.emit(Tok{S: "Output", K: 'v'})
		g.br(")")
		g.feat("progparams")
	}
	g.br(";")
	us := []string{}
	if g.chance("uses", 1, 3) {
		g.kw("uses")
		n := g.some(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.p(",")
			}
			s, _ := g.usesItem(extUnits[i], items)
			us = append(us, s)
		}
		g.br(";")
		// The program has a namespace of its own.
		local := newGmap()
		prog := &gdecl{kind: "program", name: g.cur.toks[tok].S, file: g.curNo, tok: tok, ns: func() *gmap { return local }}
		local.set(prog)
		g.scope = &gscope{maps: []*gmap{local, items, builtinMap}}
		g.nsHint = append(g.nsHint, prog)
		g.feat("uses")
	}
	b := g.block(0, true)
	g.br(".")
	return sx("program", id, lst(us), b)
}

func (g *G) progName() string { return pick(g.t, "prog", []string{"Prog1", "Main", "project_x"}) }

// unit emits a unit which is parsed alone.
func (g *G) unit() string {
	g.openFile("unit1.pas")
	intf := newGmap()
	g.scope = &gscope{maps: []*gmap{intf, builtinMap}}
	g.must("unit")
	id, _ := g.ident("Unit1")
	port := g.unitPort()
	g.br(";")
	g.must("interface")
	us := g.extUses(0, intf)
	ds := g.interfaceDecls()
	is := sx("interface", us, ds)
	g.must("implementation")
	g.scope = g.scope.push()
	us2 := g.extUses(3, g.scope.top())
	is2, ini := g.implBody(us2)
	return sx("unit", id, port, is, is2, ini)
}

func (g *G) unitPort() string {
	if g.chance("unitport", 1, 6) {
		port := pick(g.t, "port", []string{"platform", "deprecated", "library"})
		g.kw(port)
		g.feat("portability")
		return port
	}
	return none
}

// extUses emits an optional uses clause with units which are not there.
func (g *G) extUses(from int, m *gmap) string {
	us := []string{}
	if g.chance("uses", 1, 3) {
		g.kw("uses")
		n := g.some(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.p(",")
			}
			nm := extUnits[i]
			if from > 0 {
				nm = []string{"Forms", "Graphics", "Controls"}[i]
			}
			s, _ := g.usesItem(nm, m)
			us = append(us, s)
		}
		g.br(";")
		g.feat("uses")
	}
	return lst(us)
}

// implBody emits the rest of a unit after the uses clause of its implementation.
func (g *G) implBody(us string) (string, string) {
	ds := g.declSections(0)
	ex := g.exportsStmts()
	impl := sx("implementation", us, ds, ex)
	ini := none
	if g.chance("init", 1, 2) {
		g.kw("initialization")
		s1 := g.stmts(0)
		s2 := "[]"
		if g.chance("final", 1, 2) {
			g.kw("finalization")
			s2 = g.stmts(0)
			g.feat("finalization")
		}
		ini = sx("init", s1, s2)
		g.feat("initialization")
	}
	g.must("end")
	g.br(".")
	return impl, ini
}
