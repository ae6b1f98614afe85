package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P20: kinds of types

type kindWant struct {
	Var  string `json:"var"`
	Kind string `json:"kind"`
}

type kindCase struct {
	Class string     `json:"class"`
	Files []projFile `json:"files"`
	Kind  string     `json:"kind"` // program, unit or project
	Want  []kindWant `json:"want"`
	Fails bool       `json:"fails"`
	ErrAt string     `json:"errat"`
	Feats []string   `json:"feats,omitempty"`
}

// predicates by kind of type
var kindPreds = map[string]string{
	"real": "simple real", "ordident": "simple ordinal ordident", "ordinal": "simple ordinal", "string": "string", "pointer": "pointer", "variant": "variant",
	"struct": "", "proc": "", "class": "class", "classref": "", "none": "",
}

type kindGen struct {
	t     *rapid.T
	toks  []Tok
	seq   int
	types []kindType // types which are declared
	inU   bool       // in the unit
	feats map[string]int
}

type kindType struct {
	name, kind string
	unit       bool
}

func (g *kindGen) w(words ...string) {
	for _, s := range words {
		for _, x := range strings.Fields(s) {
			k := byte('i')
			switch {
			case strings.ContainsAny(x[:1], ";,.:=()[]^-"):
				k = 'p'
			case x[0] == '\'':
				k = 's'
			case '0' <= x[0] && x[0] <= '9':
				k = 'n'
			case kindKeywords[x]:
				k = 'k'
			}
			g.toks = append(g.toks, Tok{S: x, K: k})
		}
	}
}

var kindKeywords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range reservedWordList {
		m[strings.ToLower(w)] = true
	}
	return m
}()

func (g *kindGen) name(p string) string { g.seq++; return p + itoa(g.seq) }

func (g *kindGen) builtin(names string) string {
	return recase(g.t, pick(g.t, "builtin", strings.Fields(names)))
}

const (
	realNames    = "Real48 Real Single Double Extended Currency Comp"
	ordNames     = "Integer Cardinal ShortInt SmallInt LongInt Int64 Byte Word LongWord Char AnsiChar WideChar Boolean"
	strNames     = "AnsiString WideString"
	ptrNames     = "Pointer PChar PAnsiChar PWideChar"
	variantNames = "Variant OleVariant"
)

// ref gives a reference to a declared type of the kinds (or of any).
func (g *kindGen) ref(ok func(kind string) bool) (string, string, bool) {
	var c []kindType
	for _, x := range g.types {
		if ok(x.kind) {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		return "", "", false
	}
	x := c[uniform(g.t, len(c)-1)]
	s := recase(g.t, x.name)
	if x.unit && !g.inU && coin.Draw(g.t, "qualify") {
		s = recase(g.t, "UnitA") + " . " + s
		g.feats["qualified"]++
	}
	return s, x.kind, true
}

// pointee is a name which is not qualified.
func (g *kindGen) plainRef() string {
	if len(g.types) > 0 && coin.Draw(g.t, "user") {
		return recase(g.t, g.types[uniform(g.t, len(g.types)-1)].name)
	}
	return g.builtin(ordNames + " " + realNames)
}

func (g *kindGen) ordinal(depth int) string {
	switch uniform(g.t, 3) {
	case 0:
		if s, _, ok := g.ref(func(k string) bool { return k == "ordinal" || k == "ordident" }); ok {
			return s
		}
	case 1:
		return g.enum()
	case 2:
		return g.subrange()
	}
	return g.builtin(ordNames)
}

// ordName is an ordinal type which is given by its name.
func (g *kindGen) ordName() string {
	if coin.Draw(g.t, "user") {
		if s, _, ok := g.ref(func(k string) bool { return k == "ordinal" || k == "ordident" }); ok {
			return s
		}
	}
	return g.builtin(ordNames)
}

func (g *kindGen) enum() string {
	g.feats["enum"]++
	s := "( " + g.name("e")
	for i := many(g.t, 2, 60); i > 0; i-- {
		s += " , " + g.name("e")
	}
	return s + " )"
}

func (g *kindGen) subrange() string {
	g.feats["subrange"]++
	return pick(g.t, "subrange", []string{"1 .. 10", "0 .. 255", "'a' .. 'z'", "ka .. 10", "ka .. kb", "1 .. ka", "1 .. kb + 1"})
}

func (g *kindGen) structured(depth int) string {
	p := ""
	if uniform(g.t, 3) == 0 {
		p = "packed "
	}
	switch uniform(g.t, 5) {
	case 0:
		g.feats["set"]++
		return p + "set of " + g.ordinal(depth+1)
	case 1:
		g.feats["file"]++
		return p + "file of " + g.plainRef()
	case 2:
		g.feats["array"]++
		s, _ := g.typ(depth+1, false)
		return p + "array [ " + g.ordinal(depth+1) + " ] of " + s
	case 3:
		g.feats["array"]++
		s, _ := g.typ(depth+1, false)
		return p + "array of " + s
	case 4:
		g.feats["variantrecord"]++
		s, _ := g.typ(depth+1, false)
		tag := ""
		if coin.Draw(g.t, "tag") {
			tag = "tag : "
		}
		return p + "record case " + tag + g.ordName() + " of 1 : ( f : " + s + " ) end"
	}
	g.feats["record"]++
	s, _ := g.typ(depth+1, false)
	return p + "record f : " + s + " end"
}

// typ gives the text and the kind of a type.
func (g *kindGen) typ(depth int, class bool) (string, string) {
	max := 9
	if depth >= 3 {
		max = 5
	}
	switch uniform(g.t, max) {
	case 0:
		return g.builtin(realNames), "real"
	case 1:
		return g.builtin(ordNames), "ordident"
	case 2:
		if coin.Draw(g.t, "fixed") {
			g.feats["fixedstring"]++
			return "string [ " + pick(g.t, "len", []string{"1", "255", "kb"}) + " ]", "string"
		}
		if coin.Draw(g.t, "string") {
			return "string", "string"
		}
		return g.builtin(strNames), "string"
	case 3:
		if coin.Draw(g.t, "ptr") {
			g.feats["pointer"]++
			return "^ " + g.plainRef(), "pointer"
		}
		return g.builtin(ptrNames), "pointer"
	case 4:
		return g.builtin(variantNames), "variant"
	case 5:
		if coin.Draw(g.t, "enum") {
			return g.enum(), "ordinal"
		}
		return g.subrange(), "ordinal"
	case 6:
		if s, k, ok := g.ref(func(string) bool { return true }); ok {
			g.feats["alias"]++
			return s, k
		}
		return g.builtin(ordNames), "ordident"
	case 7:
		g.feats["proctype"]++
		return pick(g.t, "proc", []string{"procedure", "function : Integer", "procedure of object", "function ( a : Char ) : Char", "procedure ( x : Real )"}), "proc"
	case 8:
		if class {
			g.feats["class"]++
			if s, _, ok := g.ref(func(k string) bool { return k == "class" }); ok && !strings.Contains(s, ".") {
				return pick(g.t, "class", []string{"class ( " + s + " ) f : Integer ; end", "class of " + s, "class end"}), ""
			}
			return pick(g.t, "class", []string{"class end", "class ( TObject ) f : Integer ; end", "class procedure m ; end"}), "class"
		}
	}
	return g.structured(depth), "struct"
}

func classKind(s, k string) string {
	if k != "" {
		return k
	}
	if strings.HasPrefix(s, "class of") {
		return "classref"
	}
	return "class"
}

func (g *kindGen) typeSection() {
	n := many(g.t, 5, 50)
	if n == 0 {
		return
	}
	g.w("type")
	for i := 0; i < n; i++ {
		// Now and then a long chain of aliases
		if len(g.types) > 0 && uniform(g.t, 31) == 31 {
			for j := uniform(g.t, 60); j > 0; j-- {
				last := g.types[len(g.types)-1]
				nm := g.name("T")
				g.w(nm, "=", recase(g.t, last.name), ";")
				g.types = append(g.types, kindType{nm, last.kind, g.inU})
			}
			g.feats["chain"]++
		}
		nm := g.name("T")
		s, k := g.typ(0, true)
		k = classKind(s, k)
		g.w(nm, "=")
		if g.toks[len(g.toks)-1].S == "=" && k != "class" && k != "classref" && uniform(g.t, 5) == 0 {
			g.w("type")
		}
		g.w(s, ";")
		g.types = append(g.types, kindType{nm, k, g.inU})
	}
}

// cycles declares types which never come to an end, and one which is unknown.
func (g *kindGen) cycles() {
	a, b, c := g.name("T"), g.name("T"), g.name("T")
	switch uniform(g.t, 2) {
	case 0:
		g.w("type", a, "=", b, ";", b, "=", a, ";")
	case 1:
		g.w("type", a, "=", b, ";", b, "=", c, ";", c, "=", a, ";")
		g.types = append(g.types, kindType{c, "none", g.inU})
	default:
		g.w("type", a, "= Unknown ;", b, "=", a, ";")
	}
	g.types = append(g.types, kindType{a, "none", g.inU}, kindType{b, "none", g.inU})
	g.feats["cycle"]++
}

func (g *kindGen) vars(want *[]kindWant) {
	n := uniform(g.t, 3)
	if len(g.types) == 0 && n == 0 {
		return
	}
	g.w("var")
	for _, x := range g.types {
		v := g.name("v")
		s := recase(g.t, x.name)
		if x.unit && !g.inU && coin.Draw(g.t, "qualify") {
			s = recase(g.t, "UnitA") + " . " + s
		}
		g.w(v, ":", s, ";")
		*want = append(*want, kindWant{v, x.kind})
	}
	for i := 0; i < n; i++ {
		v := g.name("v")
		s, k := g.typ(0, false)
		g.w(v, ":", s, ";")
		*want = append(*want, kindWant{v, k})
	}
}

// wrong emits a type which needs an ordinal type and gets another one.
func (g *kindGen) wrong() int {
	var s, k string
	if s, k = g.typ(0, false); k == "ordinal" || k == "ordident" || k == "none" {
		s, k = g.builtin(realNames+" "+strNames+" "+ptrNames+" "+variantNames), "builtin"
	}
	g.feats["wrong "+k]++
	g.w("type", g.name("T"), "=")
	if uniform(g.t, 4) == 0 {
		g.w("packed")
	}
	at := 0
	in := func(pre, post string) {
		g.w(pre)
		at = len(g.toks)
		g.w(s)
		g.w(post)
	}
	n := uniform(g.t, 6)
	if n == 3 || n == 4 { // a variant needs a name
		var ok bool
		if s, k, ok = g.ref(func(k string) bool { return k != "ordinal" && k != "ordident" && k != "none" }); !ok {
			s = g.builtin(realNames + " " + strNames + " " + ptrNames + " " + variantNames)
		}
	}
	switch n {
	case 0:
		in("set of", ";")
		g.feats["in set"]++
	case 1:
		in("array [", "] of Integer ;")
		g.feats["in index"]++
	case 2:
		in("array [ "+g.ordinal(1)+" ,", "] of Integer ;")
		g.feats["in second index"]++
	case 3:
		in("record case", "of 1 : ( ) end ;")
		g.feats["in variant"]++
	case 4:
		in("record case tag :", "of 1 : ( ) end ;")
		g.feats["in tag"]++
	default:
		pre, post := "array [", ""
		for i := uniform(g.t, 5); i >= 0; i-- {
			pre += " " + g.ordinal(1) + " ,"
		}
		for i := uniform(g.t, 3); i > 0; i-- {
			post += " , " + g.ordinal(1)
		}
		in(pre, post+" ] of Integer ;")
		g.feats["in some index"]++
	}
	return at
}

func genKinds(t *rapid.T) kindCase {
	c := kindCase{Class: "correct", Kind: pick(t, "kind", []string{"program", "unit", "project", "project"})}
	g := &kindGen{t: t, feats: map[string]int{}}
	wrong := uniform(t, 2) == 0
	wrongIn := 0
	var uToks []Tok
	at := -1
	if c.Kind != "program" {
		if c.Kind == "unit" || coin.Draw(t, "wrongin") {
			wrongIn = 1
		}
		g.inU = true
		g.w("unit UnitA ; interface const ka = 1 ; kb = 5 ;")
		g.typeSection()
		if uniform(t, 3) == 0 {
			g.cycles()
		}
		g.vars(&c.Want)
		if wrong && wrongIn == 1 {
			at = g.wrong()
		}
		if coin.Draw(t, "second") {
			g.typeSection()
		}
		g.w("implementation end .")
		uToks = g.toks
		g.toks, g.inU = nil, false
	}
	if c.Kind != "unit" {
		g.w("program Main ;")
		if c.Kind == "project" {
			g.w("uses UnitA in")
			g.toks = append(g.toks, Tok{S: "'UnitA.pas'", K: 's'})
			g.w(";")
		} else {
			g.w("const ka = 1 ; kb = 5 ;")
		}
		g.typeSection()
		if uniform(t, 3) == 0 {
			g.cycles()
		}
		if coin.Draw(t, "second") {
			g.typeSection()
		}
		g.vars(&c.Want)
		if wrong && wrongIn == 0 {
			at = g.wrong()
		}
		g.w("begin end .")
	}
	paths := map[string][2]string{"program": {progPath}, "unit": {"", unitPath}, "project": {progPath, "UnitA.pas"}}[c.Kind]
	for i, toks := range [][]Tok{g.toks, uToks} {
		if paths[i] == "" {
			continue
		}
		r := render(toks, drawLayout(t), true)
		c.Files = append(c.Files, projFile{Path: paths[i], Text: r.text})
		if at >= 0 && i == wrongIn {
			c.ErrAt = fmt.Sprintf("at %s:%d:%d", paths[i], r.pos[at].line, r.pos[at].col)
		}
	}
	if at >= 0 {
		c.Class, c.Fails, c.Want = "wrong", true, nil
	}
	for k := range g.feats {
		c.Feats = append(c.Feats, k)
	}
	sortStrings(c.Feats)
	return c
}

// kindOf gives the predicates which are true for the type.
func kindOf(t ast.Type) string {
	var r []string
	add := func(name string, ok bool) {
		if ok {
			r = append(r, name)
		}
	}
	if x, ok := t.(ast.SimpleType); ok {
		add("simple", x.IsSimpleType())
	}
	if x, ok := t.(ast.RealType); ok {
		add("real", x.IsRealType())
	}
	if x, ok := t.(ast.OrdinalType); ok {
		add("ordinal", x.IsOrdinalType())
	}
	if x, ok := t.(ast.OrdIdent); ok {
		add("ordident", x.IsOrdIdent())
	}
	if x, ok := t.(ast.StringType); ok {
		add("string", x.IsStringType())
	}
	if x, ok := t.(ast.PointerType); ok {
		add("pointer", x.IsPointerType())
	}
	if x, ok := t.(ast.VariantType); ok {
		add("variant", x.IsVariantType())
	}
	return strings.Join(r, " ")
}

func checkKinds(c *kindCase) error {
	if c.Kind == "project" {
		return withProject(c.Files, func() error {
			prog, err := parser.ParseProgram(progPath)
			if err != nil || prog == nil {
				return checkKindsOf(c, nil, err)
			}
			roots := []astcore.Node{prog.Program}
			for _, u := range prog.Units {
				roots = append(roots, u)
			}
			return checkKindsOf(c, roots, nil)
		})
	}
	root, err := parseText(c.Kind, c.Files[0].Text)
	if err != nil {
		return checkKindsOf(c, nil, err)
	}
	return checkKindsOf(c, []astcore.Node{root.(astcore.Node)}, nil)
}

// checkWritten checks a class or class reference which is written there: it is of this kind and of no other.
func checkWritten(n astcore.Node) error {
	t, ok := n.(ast.Type)
	if !ok {
		return nil
	}
	cls, isCls := t.(ast.ClassType)
	ref, isRef := t.(ast.ClassRefType)
	isCls, isRef = isCls && cls.IsClassType(), isRef && ref.IsClassRefType()
	wantCls, wantRef := false, false
	switch t.(type) {
	case *ast.CustomClassType, *ast.ForwardDeclaredClassType:
		wantCls = true
	case *ast.CustomClassRefType:
		wantRef = true
	}
	if isCls != wantCls || isRef != wantRef {
		return fmt.Errorf("a %T: class %v instead of %v, class reference %v instead of %v", t, isCls, wantCls, isRef, wantRef)
	}
	if k := kindOf(t); (wantCls || wantRef) && k != "" {
		return fmt.Errorf("a %T counts as %q", t, k)
	}
	return nil
}

func checkKindsOf(c *kindCase, roots []astcore.Node, err error) error {
	if c.Fails {
		if err == nil {
			return fmt.Errorf("a type which isn't ordinal is accepted where an ordinal type is needed")
		}
		if !strings.HasSuffix(err.Error(), c.ErrAt) {
			return fmt.Errorf("the error isn't located %s: %v", c.ErrAt, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("correct types are rejected: %v", err)
	}
	got := map[string]ast.Type{}
	var bad error
	for _, root := range roots {
		_ = astcore.WalkDown(root, func(n astcore.Node) error {
			if vd, ok := n.(*ast.VarDecl); ok && len(vd.IdentList) == 1 {
				got[vd.IdentList[0].Name] = vd.Type
			}
			if bad == nil {
				bad = checkWritten(n)
			}
			return nil
		})
	}
	if bad != nil {
		return bad
	}
	for _, w := range c.Want {
		t := got[w.Var]
		if t == nil {
			return fmt.Errorf("the variable %s has no type", w.Var)
		}
		want := kindPreds[w.Kind]
		if w.Kind == "class" {
			want = ""
		}
		if k := kindOf(t); k != want {
			return fmt.Errorf("the type of %s (%T), of kind %q, counts as %q instead of %q", w.Var, t, w.Kind, k, want)
		}
	}
	return nil
}

func init() {
	properties = append(properties,
		&Property{ID: "P20", Facets: []Facet{
			facet("kinds", "types of every kind, named and not, through chains of aliases, of this file or a unit; a third of the cases has a type which isn't ordinal in a set, index or variant; non-trivial: at least 3 variables, or a wrong type", 60000, 3000000,
				genKinds, checkKinds, func(c *kindCase) bool { return len(c.Want) >= 3 || c.Fails }, func(c *kindCase) []string { return append([]string{c.Class, c.Kind}, c.Feats...) }),
		}},
	)
}
