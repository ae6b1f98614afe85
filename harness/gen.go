package main

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Generated source: tokens, and the expected syntax tree built along with them.
//
// The generator follows the grammar, so that the tree which the parser has to
// build is known by construction. An identifier in the expected tree is a
// marker which names its token; it is replaced by what the dump mode shows
// after the tokens have been laid out as text.

type Tok struct {
	S string
	// k keyword or directive (any case), i identifier, n numeral, s string,
	// p punctuation, v other word which must be kept as it is
	K    byte
	Asm  bool // between ASM and END
	Must bool // a program without this token is wrong
	Glue bool // a minus sign which must not touch a numeral that follows
	Soft bool // if it is wrong, the error may be reported for an earlier token
}

type gfile struct {
	path string
	toks []Tok
}

// gdecl is a declaration in the model.
type gdecl struct {
	kind      string
	name      string
	file, tok int
	ti        *ginfo            // of a type
	ns        func() *gmap      // of a uses item, unit or program: what it declares
	class     *gclass           // of a class type
	routine   bool              // duplicates of routines are fine
	forward   bool              // forward class without actual class
	elems     map[string]*gdecl // enum elements which come with a type
}

// ginfo is what the model knows about a type.
type ginfo struct {
	kind string // ordinal real string pointer variant array set file record proc class classref alias
	slot int    // of an alias: its reference
	open bool   // ends with a constant expression, so it can't be followed by '='
	cls  *gclass
}

type gmap struct {
	m        map[string]*gdecl
	reserved map[string]bool
	order    []string
}

func newGmap() *gmap { return &gmap{m: map[string]*gdecl{}, reserved: map[string]bool{}} }

func (m *gmap) get(name string) *gdecl { return m.m[strings.ToLower(name)] }
func (m *gmap) set(d *gdecl) {
	k := strings.ToLower(d.name)
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = d
}
func (m *gmap) taken(name string) bool {
	k := strings.ToLower(name)
	return m.m[k] != nil || m.reserved[k]
}

// gscope is what names mean at a point of the source: the innermost map first.
type gscope struct {
	maps []*gmap
}

func (s *gscope) top() *gmap { return s.maps[0] }
func (s *gscope) get(name string) *gdecl {
	for _, m := range s.maps {
		if d := m.get(name); d != nil {
			return d
		}
	}
	return nil
}
func (s *gscope) push() *gscope {
	return &gscope{maps: append([]*gmap{newGmap()}, s.maps...)}
}

type gopts struct {
	noCalls   bool
	exprMax   int
	classes   bool
	classBias int    // how often of 10 a type is a class
	decls     string // kinds of sections: c v w t l r
	maxDecls  int
	exports   bool
	bodyFuel  int // what the statements of a block have at least
}

func itoa(i int) string { return strconv.Itoa(i) }

type G struct {
	t     *rapid.T
	fuel  int
	opts  gopts
	files []*gfile
	cur   *gfile
	curNo int
	scope *gscope
	slots []*gdecl
	// deferred references of the type section being generated
	deferred   []deferredRef
	inType     bool
	usedOuter  map[string]bool
	sectionTop *gmap
	asm        bool
	noName     string // a name which can't be used for now (the constant being declared)
	seq        int
	feats      map[string]int
	nsHint     []*gdecl // namespaces which can be used for qualified names
	lastQual   string   // the qualified name as a type
	lowHead    int      // the next factor is the first one of a subrange: 2 if an ordinal type is needed
	semis      []int    // of the members of the class at hand
	softNext   bool     // the next token is soft
	lastUses   []*gunit
	spike      string // what there is once very much of: list expr stmt type
	spikeAt    int
	nest       int // of routines
	force      int // the kind of the next statement, plus one
	forceType  int // of the next type
}

type deferredRef struct {
	slot int
	name string
}

var builtins = func() map[string]*gdecl {
	m := map[string]*gdecl{}
	add := func(kind, names string) {
		for _, n := range strings.Fields(names) {
			m[strings.ToLower(n)] = &gdecl{kind: "builtin", name: strings.ToUpper(n), ti: &ginfo{kind: kind}}
		}
	}
	add("real", "Real48 Real Single Double Extended Currency Comp")
	add("ordinal", "Integer Cardinal ShortInt SmallInt LongInt Int64 Byte Word LongWord Char AnsiChar WideChar Boolean")
	add("string", "String AnsiString WideString")
	add("pointer", "Pointer PChar PAnsiChar PWideChar")
	add("variant", "Variant OleVariant")
	return m
}()

var builtinMap = &gmap{m: builtins, reserved: map[string]bool{}}

func newG(t *rapid.T, fuel int) *G {
	g := &G{t: t, fuel: fuel, feats: map[string]int{}}
	g.opts = gopts{exprMax: 4, classes: true, classBias: 2, decls: "cvtvtrrclw", maxDecls: 4, exports: true, bodyFuel: 40}
	// Now and then something is much longer or deeper than usual, at one place.
	if k := uniform(t, 63); k >= 55 {
		g.spike = []string{"list", "list", "list", "expr", "stmt", "type", "chain", "chain", "routine"}[k-55]
		g.spikeAt = uniform(t, 11)
	}
	return g
}

// spiking tells whether the spike of this kind is due.
func (g *G) spiking(kind string) bool {
	if g.spike != kind || g.force > 0 || g.forceType > 0 {
		return false
	}
	if g.spikeAt > 0 {
		g.spikeAt--
		return false
	}
	g.spike = ""
	return true
}

func (g *G) openFile(path string) {
	g.curNo = len(g.files)
	g.cur = &gfile{path: path}
	g.files = append(g.files, g.cur)
}

func (g *G) feat(s string) { g.feats[s]++ }

// ---- drawing

func (g *G) n(label string, max int) int {
	return uniform(g.t, max)
}

var coin = rapid.Bool()

// uniform draws from 0..max. rapid's integers prefer small values, which makes
// most alternatives of a grammar rare.
func uniform(t *rapid.T, max int) int {
	if max <= 0 {
		return 0
	}
	v, span := 0, 1
	for span <= max || span < 4*max && span < 1<<12 {
		v <<= 1
		span <<= 1
		if coin.Draw(t, "b") {
			v |= 1
		}
	}
	return v * (max + 1) / span
}

// chance is true with the probability num/den; false is simpler.
func (g *G) chance(label string, num, den int) bool {
	return uniform(g.t, den-1) >= den-num
}

func (g *G) spend(k int) bool {
	g.fuel -= k
	return g.fuel > 0
}

// count draws how many there are of something: min, or more while there is fuel.
func (g *G) count(label string, min, max int) int {
	if g.fuel <= 0 {
		return min
	}
	if g.spiking("list") {
		g.feat("spikelist")
		if g.fuel > 12 {
			g.fuel = 12
		}
		return max + 8 + g.n("spike", 120)
	}
	n := min + g.n(label, max-min)
	if n == max && n > min && g.chance("long", 1, 8) {
		// Now and then many more.
		n += 1 + g.n("longer", 5)
		g.feat("longlist")
	}
	return n
}

// some is count with a hard limit.
func (g *G) some(min, max int) int {
	if g.fuel <= 0 {
		return min
	}
	return min + g.n("some", max-min)
}

// chain draws the number of operators of a level.
func (g *G) chain(ks ...int) int {
	if g.spiking("chain") {
		g.feat("spikechain")
		if g.fuel > 12 {
			g.fuel = 12
		}
		return 8 + g.n("spike", 140)
	}
	k := ks[g.n("chain", len(ks)-1)]
	if k == ks[len(ks)-1] && g.chance("longchain", 1, 5) {
		k += 1 + g.n("longer", 4)
		g.feat("longchain")
	}
	return k
}

// ---- emitting

func (g *G) emit(t Tok) int {
	t.Soft = t.Soft || g.softNext
	g.softNext = false
	t.Asm = g.asm
	g.cur.toks = append(g.cur.toks, t)
	return len(g.cur.toks) - 1
}

func (g *G) kw(s string) int   { return g.emit(Tok{S: strings.ToLower(s), K: 'k'}) }
func (g *G) must(s string) int { return g.emit(Tok{S: strings.ToLower(s), K: 'k', Must: true}) }
func (g *G) p(s string) int    { return g.emit(Tok{S: s, K: 'p'}) }
func (g *G) br(s string) int   { return g.emit(Tok{S: s, K: 'p', Must: true}) }

func (g *G) mark(tok int) string { return fmt.Sprintf("\x01%d:%d\x02", g.curNo, tok) }

// ident emits an identifier and returns its marker.
func (g *G) ident(name string) (string, int) {
	i := g.emit(Tok{S: name, K: 'i'})
	return g.mark(i), i
}

// slot makes a reference to the declaration, which may be nil.
func (g *G) slot(d *gdecl) (string, int) {
	g.slots = append(g.slots, d)
	return fmt.Sprintf("\x03%d\x04", len(g.slots)-1), len(g.slots) - 1
}

// ---- names

var valueNames = strings.Fields("a b c x y Foo bar n1 _t")
var sjisNames = []string{"表示", "ソート", "予定_1", "ｱｲｳ", "Δελτα", "Ａｂｃ", "Имя_2"}

// Words which mean something in some places only, and are names everywhere else.
var wordNames = strings.Fields("Name Index Message Default Read Write Local Register Export Stored NoDefault Far Near Overload Virtual Implements External Forward Dynamic Abstract Override Absolute Platform Deprecated CDecl StdCall VarArgs")
var typeNames = strings.Fields("TA TB TC TFoo TBar")
var labelNames = strings.Fields("L1 L2 Lx")
var memberNames = strings.Fields("FA FB GetA SetA Run Prop Item Caption Hidden")
var fieldNames = strings.Fields("fx fy fz Left Tag")

func (g *G) spell(name string) string {
	switch g.n("spell", 5) {
	case 4:
		return strings.ToUpper(name)
	case 5:
		return strings.ToLower(name)
	}
	return name
}

// fresh picks a name from the pool which isn't declared in the current scope.
func (g *G) fresh(pool []string) string {
	var free []string
	for _, n := range pool {
		if !g.scope.top().taken(n) && !g.keepFree(n) {
			free = append(free, n)
		}
	}
	if len(free) == 0 {
		g.seq++
		return fmt.Sprintf("%s%d", pool[0], 100+g.seq)
	}
	if g.chance("newname", 1, 24) {
		return g.randomName()
	}
	return free[g.n("name", len(free)-1)]
}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

// randomName makes up a name which nothing else has: sometimes a long one.
func (g *G) randomName() string {
	g.seq++
	n := 1 + g.n("len", 10)
	if g.chance("longname", 1, 6) {
		n = 20 + g.n("len", 300)
		g.feat("longname")
	}
	// The names of the pools and the reserved words don't begin with "z_".
	b := []byte("z_")
	if g.chance("upper", 1, 2) {
		b[0] = 'Z'
	}
	for i := 0; i < n; i++ {
		b = append(b, nameChars[g.n("char", len(nameChars)-1)])
	}
	return fmt.Sprintf("%s_%d", b, g.seq)
}

// keepFree: a name can't be declared while a reference to it waits for the end
// of the type section, unless a type is declared by it.
func (g *G) keepFree(n string) bool {
	for _, d := range g.deferred {
		if strings.EqualFold(d.name, n) {
			return true
		}
	}
	return strings.EqualFold(n, g.noName)
}

// shadowNames are names of built-in types which values can have.
var shadowNames = strings.Fields("Word Double PChar Variant Byte Char Real Comp Real48 PAnsiChar AnsiString Boolean LongInt")

// builtin picks a built-in type which isn't hidden.
func (g *G) builtin(names []string) *gdecl {
	d := builtins[strings.ToLower(names[g.n("builtin", len(names)-1)])]
	if g.scope.get(d.name) != d || strings.EqualFold(d.name, g.noName) {
		return builtins["integer"]
	}
	return d
}

func (g *G) valuePool() []string {
	// A value sometimes has the name of a type of an outer scope.
	if g.chance("typename", 1, 12) {
		return typeNames
	}
	// or that of a built-in type
	if g.chance("builtinname", 1, 10) {
		g.feat("builtinname")
		return shadowNames
	}
	if g.chance("wide", 1, 12) {
		g.feat("widename")
		return append(append([]string{}, valueNames...), sjisNames...)
	}
	if g.chance("words", 1, 12) {
		g.feat("wordname")
		return wordNames
	}
	return valueNames
}

// declare emits the name of a new declaration; it is visible after define.
func (g *G) declare(kind string, pool []string) (*gdecl, string) {
	n := g.fresh(pool)
	m, tok := g.ident(n)
	return &gdecl{kind: kind, name: n, file: g.curNo, tok: tok}, m
}

func (g *G) define(d *gdecl) { g.scope.top().set(d) }

// ---- identifiers in expressions

func isNamespace(d *gdecl) bool {
	return d != nil && (d.kind == "uses" || d.kind == "unit" || d.kind == "program")
}

func isTypeDecl(d *gdecl) bool { return d != nil && (d.kind == "type" || d.kind == "builtin") }

// visible lists the names in scope, innermost first, which satisfy the predicate.
func (g *G) visible(pred func(*gdecl) bool) []*gdecl {
	seen := map[string]bool{}
	var r []*gdecl
	for _, m := range g.scope.maps {
		if m == builtinMap {
			continue
		}
		for _, k := range m.order {
			if !seen[k] {
				seen[k] = true
				if d := m.m[k]; d != nil && pred(d) {
					r = append(r, d)
				}
			}
		}
	}
	return r
}

// valueName picks a name for an expression: mostly a declared value.
func (g *G) valueName() (string, *gdecl) {
	for try := 0; ; try++ {
		var n string
		k := g.n("val", 9)
		switch {
		case try > 4:
			g.seq++
			n = fmt.Sprintf("und%d", g.seq)
		case k <= 6:
			vis := g.visible(func(d *gdecl) bool {
				return !isNamespace(d) && d.kind != "label" && !strings.EqualFold(d.name, g.noName)
			})
			if len(vis) == 0 {
				n = valueNames[g.n("pool", len(valueNames)-1)]
			} else {
				n = vis[g.n("vis", len(vis)-1)].name
			}
		case k <= 8:
			n = valueNames[g.n("pool", len(valueNames)-1)]
		default:
			n = pick(g.t, "undecl", []string{"Unknown", "WriteLn", "Length", "und"})
		}
		d := g.scope.get(n)
		if isNamespace(d) || d != nil && d.kind == "label" || strings.EqualFold(n, g.noName) {
			continue
		}
		return g.spell(n), d
	}
}

// qualId emits a name, maybe with its namespace.
func (g *G) qualId() (string, *gdecl) {
	if len(g.nsHint) > 0 && g.chance("qualified", 1, 4) {
		if s, d, ok := g.qualified(); ok {
			return s, d
		}
	}
	n, d := g.valueName()
	m, _ := g.ident(n)
	s, _ := g.slot(d)
	return m + s, d
}

func (g *G) qualified() (string, *gdecl, bool) {
	ns := g.nsHint[g.n("ns", len(g.nsHint)-1)]
	if g.scope.get(ns.name) != ns || ns.ns == nil {
		return "", nil, false
	}
	gm := ns.ns()
	if gm == nil || len(gm.order) == 0 {
		return "", nil, false
	}
	var cand []*gdecl
	for _, k := range gm.order {
		if d := gm.m[k]; d != nil && !isNamespace(d) && d.kind != "label" && !strings.EqualFold(d.name, g.noName) {
			cand = append(cand, d)
		}
	}
	if len(cand) == 0 {
		return "", nil, false
	}
	d := cand[g.n("member", len(cand)-1)]
	m1, _ := g.ident(g.spell(ns.name))
	s1, _ := g.slot(ns)
	g.br(".")
	m2, _ := g.ident(g.spell(d.name))
	s2, _ := g.slot(d)
	g.feat("qualified")
	g.lastQual = sx("q", m1, m2+s2)
	return sx("q", m1+s1, m2+s2), d, true
}

// ---- expressions

func (g *G) expr() string { return g.exprD(0) }

func (g *G) exprD(depth int) string {
	s := g.simple(depth)
	k := 0
	if depth < g.opts.exprMax && g.spend(1) {
		k = g.chain(0, 0, 0, 0, 1, 1, 2)
	}
	if k == 0 {
		return s
	}
	args := []string{s}
	for i := 0; i < k; i++ {
		op := pick(g.t, "relop", []string{"=", "<>", "<", ">", "<=", ">=", "in", "is"})
		if op == "in" || op == "is" {
			g.kw(op)
		} else {
			g.p(op)
		}
		args = append(args, sx(strings.ToUpper(op), g.simple(depth+1)))
	}
	g.feat("relop")
	return sx("rel", args...)
}

// constD is an expression where mostly a single constant is written.
func (g *G) constD() string {
	if g.chance("constexpr", 1, 4) {
		g.feat("constexpr")
		return g.exprD(1)
	}
	return g.exprD(3)
}

func (g *G) simple(depth int) string {
	u := none
	if depth < g.opts.exprMax && g.chance("unary", 1, 8) {
		u = pick(g.t, "unaryop", []string{"-", "+"})
		g.emit(Tok{S: u, K: 'p', Glue: true})
		g.feat("unary")
		g.lowHead = 0
	}
	// After a sign a numeral has no sign of its own.
	s := g.term(depth, u == none)
	k := 0
	if depth < g.opts.exprMax && g.spend(1) {
		k = g.chain(0, 0, 0, 1, 1, 2, 3)
	}
	if k == 0 && u == none {
		return s
	}
	args := []string{u, s}
	for i := 0; i < k; i++ {
		op := pick(g.t, "addop", []string{"+", "-", "or", "xor"})
		if len(op) > 1 {
			g.kw(op)
		} else {
			g.p(op)
		}
		args = append(args, sx(strings.ToUpper(op), g.term(depth+1, true)))
		g.feat("addop")
	}
	return sx("add", args...)
}

func (g *G) term(depth int, signed bool) string {
	s := g.factor(depth, signed)
	k := 0
	if depth < g.opts.exprMax && g.spend(1) {
		k = g.chain(0, 0, 0, 0, 1, 1, 2)
	}
	if k == 0 {
		return s
	}
	args := []string{s}
	for i := 0; i < k; i++ {
		op := pick(g.t, "mulop", []string{"*", "/", "div", "mod", "and", "shl", "shr", "as"})
		if len(op) > 1 {
			g.kw(op)
		} else {
			g.p(op)
		}
		args = append(args, sx(strings.ToUpper(op), g.factor(depth+1, true)))
	}
	g.feat("mulop")
	return sx("mul", args...)
}

func (g *G) number(signed bool) string {
	n := ""
	if g.chance("digits", 1, 5) {
		n = g.digits()
		if g.chance("fraction", 1, 4) {
			n += "." + g.digits()
		}
	} else {
		n = pick(g.t, "num", []string{"1", "0", "42", "3.14", "007", "65535", "0.5"})
	}
	if signed && g.chance("negnum", 1, 6) {
		n = "-" + n
	}
	g.emit(Tok{S: n, K: 'n'})
	return sx("num", n)
}

func (g *G) digits() string {
	n := 1 + g.n("digits", 6)
	if g.chance("manydigits", 1, 12) {
		n = 10 + g.n("digits", 70)
	}
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte('0'+g.n("digit", 9)))
	}
	return string(b)
}

var litChars = []rune("abcXYZ012 _-+*/=<>()[]{};:.,@^#$%&!?\"|~`ABC日本語表ソ能ｱｲ\u3000－×")

// literal makes up a string literal.
func (g *G) literal() string {
	n := g.n("len", 8)
	if g.chance("longlit", 1, 12) {
		n = 40 + g.n("len", 400)
		g.feat("longlit")
	}
	var b []rune
	b = append(b, '\'')
	for i := 0; i < n; i++ {
		if g.chance("quote", 1, 12) {
			b = append(b, '\'', '\'')
		} else {
			b = append(b, litChars[g.n("char", len(litChars)-1)])
		}
	}
	return string(append(b, '\''))
}

var stringLits = []string{"'s'", "''", "'it''s'", "'{ no comment }'", "'(* *) // ;'", "'end;'", "''''", "'a b'", "'日本語'", "'表'", "'C:\\x\\y'", "'%d %s'"}

func (g *G) str() string {
	var s string
	if g.chance("literal", 1, 5) {
		s = g.literal()
	} else {
		s = pick(g.t, "str", stringLits)
	}
	g.emit(Tok{S: s, K: 's'})
	return sx("str", s)
}

func (g *G) args(depth int) string {
	g.br("(")
	n := g.count("args", 0, 3)
	r := []string{}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.p(",")
		}
		r = append(r, g.exprD(depth+1))
	}
	g.br(")")
	return lst(r)
}

// nestFactor emits a factor with k levels of nesting.
func (g *G) nestFactor(k int, signed bool) string {
	if k == 0 {
		g.fuel = 6
		s := g.factor(1, signed)
		g.fuel = 0
		return s
	}
	kind := g.n("nest", 8)
	if g.opts.noCalls && kind == 4 {
		kind = 0
	}
	switch kind {
	case 0:
		g.br("(")
		s := g.nestFactor(k-1, true)
		g.br(")")
		return sx("paren", s)
	case 1:
		g.kw("not")
		return sx("not", g.nestFactor(k-1, true))
	case 2:
		g.br("[")
		s := g.nestFactor(k-1, true)
		g.br("]")
		return sx("set", s)
	case 3:
		q, _ := g.qualId()
		g.br("[")
		s := g.nestFactor(k-1, true)
		g.br("]")
		return sx("des", q, sx("ix", lst([]string{s})))
	case 4:
		q, d := g.qualId()
		tid := g.castId(q)
		g.br("(")
		s := g.nestFactor(k-1, true)
		g.br(")")
		if isTypeDecl(d) {
			return sx("cast", tid, s)
		}
		return sx("call", q, lst([]string{s}))
	case 5:
		g.br("(")
		a := g.number(true)
		g.p("*")
		s := g.nestFactor(k-1, true)
		g.br(")")
		return sx("paren", sx("mul", a, sx("*", s)))
	case 6:
		g.br("(")
		g.emit(Tok{S: "-", K: 'p', Glue: true})
		s := g.nestFactor(k-1, false)
		g.br(")")
		return sx("paren", sx("add", "-", s))
	case 7:
		g.br("(")
		s := g.nestFactor(k-1, true)
		g.p("<>")
		b := g.number(true)
		g.br(")")
		return sx("paren", sx("rel", s, sx("<>", b)))
	default:
		g.p("@")
		q, _ := g.qualId()
		g.br("[")
		s := g.nestFactor(k-1, true)
		g.br("]")
		return sx("addr", sx("des", q, sx("ix", lst([]string{s}))))
	}
}

// lowFactor is the first factor of the lower bound of a subrange, which can't begin like another type.
func (g *G) lowFactor(depth int) string {
	ordinal := g.lowHead == 2
	g.lowHead = 0
	switch g.n("low", 3) {
	case 0:
		return g.number(true)
	case 1:
		return g.str()
	}
	q, d := g.qualId()
	// Where an ordinal type is needed the name is looked at first if what follows is wrong.
	g.softNext = ordinal
	g.feat("identlow")
	if g.opts.noCalls || g.chance("plainlow", 1, 2) {
		return q
	}
	if isTypeDecl(d) {
		return g.castRest(g.castId(q), depth)
	}
	if items := g.items(depth, 1); len(items) > 0 {
		q = sx("des", append([]string{q}, items...)...)
	}
	if g.chance("calllow", 1, 3) {
		if a := g.args(depth); a != "[]" {
			return sx("call", q, a)
		}
	}
	return q
}

func (g *G) factor(depth int, signed bool) string {
	if g.lowHead > 0 {
		return g.lowFactor(depth)
	}
	if g.spiking("expr") {
		g.feat("spikeexpr")
		f := g.fuel
		g.fuel = 0
		s := g.nestFactor(5+g.n("levels", 75), signed)
		g.fuel = f / 2
		return s
	}
	deep := depth < g.opts.exprMax && g.spend(1)
	max := 3
	if deep {
		max = 13
	}
	switch g.n("factor", max) {
	case 0:
		s, _ := g.qualId()
		return s
	case 1:
		return g.number(signed)
	case 2:
		return g.str()
	case 3:
		if g.chance("nil", 1, 2) {
			g.kw("nil")
			return "(nil)"
		}
		v := pick(g.t, "bool", []string{"true", "false", "True", "FALSE"})
		g.emit(Tok{S: v, K: 'v'})
		return sx("val", v)
	case 4:
		g.br("(")
		s := g.exprD(depth + 1)
		g.br(")")
		g.feat("paren")
		return sx("paren", s)
	case 5:
		g.kw("not")
		g.feat("not")
		return sx("not", g.factor(depth+1, true))
	case 6, 7: // call or cast
		if g.opts.noCalls {
			s, _ := g.qualId()
			return s
		}
		q, d := g.qualId()
		var items []string
		if !isTypeDecl(d) {
			items = g.items(depth, 1)
		} else {
			// T(x) is a cast, T.Create(x) isn't.
			if g.chance("ofclass", 1, 3) {
				items = g.items(depth, 0)
			}
			if len(items) == 0 {
				return g.castRest(g.castId(q), depth)
			}
			g.feat("callofclass")
		}
		des := q
		if len(items) > 0 {
			des = sx("des", append([]string{q}, items...)...)
		}
		g.feat("call")
		a := g.args(depth)
		if a == "[]" {
			return des
		}
		return sx("call", des, a)
	case 8, 9:
		return g.designator(depth)
	case 10:
		return g.setConstructor(depth)
	case 11:
		g.p("@")
		g.feat("address")
		return sx("addr", g.designator(depth))
	default: // cast
		if g.opts.noCalls {
			return g.number(signed)
		}
		types := g.visible(func(d *gdecl) bool { return d.kind == "type" })
		var d *gdecl
		if len(types) > 0 && g.chance("usertype", 3, 4) {
			d = types[g.n("type", len(types)-1)]
		} else {
			d = builtins[pick(g.t, "bt", []string{"integer", "word", "pchar", "variant", "double"})]
		}
		if g.scope.get(d.name) != d || strings.EqualFold(d.name, g.noName) {
			return g.number(signed)
		}
		name := d.name
		if d.kind == "builtin" {
			name = caseVariant(d.name, g.n("case", 2))
		} else {
			name = g.spell(name)
		}
		m, _ := g.ident(name)
		s, _ := g.slot(d)
		return g.castRest(m+s, depth)
	}
}

// castId is the type of a cast whose name qualId has just given.
func (g *G) castId(q string) string {
	if strings.HasPrefix(q, "(q ") {
		g.feat("qualifiedcast")
		return g.lastQual
	}
	return q
}

func (g *G) castRest(t string, depth int) string {
	g.br("(")
	e := g.exprD(depth + 1)
	g.br(")")
	g.feat("cast")
	return sx("cast", t, e)
}

func (g *G) setConstructor(depth int) string {
	g.br("[")
	n := g.count("elems", 0, 3)
	r := []string{}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.p(",")
		}
		a := g.exprD(depth + 1)
		if g.chance("range", 1, 3) {
			g.p("..")
			r = append(r, sx("..", a, g.exprD(depth+1)))
		} else {
			r = append(r, a)
		}
	}
	g.br("]")
	g.feat("set")
	return sx("set", r...)
}

func (g *G) items(depth, bias int) []string {
	var r []string
	n := g.chain(0, 1, 1, 2, 3) - bias
	for i := 0; i < n; i++ {
		switch g.n("item", 2) {
		case 0:
			g.p(".")
			f := pick(g.t, "field", fieldNames)
			if g.chance("words", 1, 12) {
				f = pick(g.t, "word", wordNames)
			}
			m, _ := g.ident(g.spell(f))
			r = append(r, sx(".", m))
		case 1:
			g.p("^")
			r = append(r, "(^)")
		default:
			g.br("[")
			k := g.count("idx", 1, 2)
			ix := []string{}
			for j := 0; j < k; j++ {
				if j > 0 {
					g.p(",")
				}
				ix = append(ix, g.exprD(depth+1))
			}
			g.br("]")
			r = append(r, sx("ix", lst(ix)))
		}
	}
	if len(r) > 0 {
		g.feat("items")
	}
	return r
}

func (g *G) designator(depth int) string {
	q, _ := g.qualId()
	it := g.items(depth, 0)
	if len(it) == 0 {
		return q
	}
	return sx("des", append([]string{q}, it...)...)
}

// ---- statements

// stmts emits statements up to, but without, the word which ends the list.
func (g *G) stmts(depth int) string {
	n := g.count("stmts", 0, 4)
	r := []string{}
	for i := 0; i < n; i++ {
		s := g.stmt(depth, false)
		// A last statement which is empty is no statement, unless it has a label.
		if i == n-1 && s == "(empty)" {
			break
		}
		r = append(r, s)
		if i < n-1 || g.chance("lastsemi", 1, 2) {
			g.p(";")
		}
	}
	return lst(r)
}

// stmt emits a statement. closed: an ELSE which follows must not belong to it.
func (g *G) stmt(depth int, closed bool) string {
	labels := g.visible(func(d *gdecl) bool { return d.kind == "label" && g.scope.get(d.name) == d })
	if len(labels) > 0 && g.chance("labelled", 1, 6) {
		l := labels[g.n("label", len(labels)-1)]
		m, _ := g.ident(g.spell(l.name))
		g.br(":")
		g.feat("labelled")
		return sx("lbl", m, g.stmtBody(depth, closed))
	}
	return g.stmtBody(depth, closed)
}

// nestStmt emits a statement with k levels of nesting.
func (g *G) nestStmt(k int, closed bool) string {
	if k == 0 {
		g.fuel = 10
		s := g.stmtBody(4, closed)
		g.fuel = 0
		return s
	}
	list := func() string {
		s := g.nestStmt(k-1, false)
		if s == "(empty)" {
			return "[]"
		}
		if g.chance("lastsemi", 1, 2) {
			g.p(";")
		}
		return lst([]string{s})
	}
	switch g.n("nest", 9) {
	case 0, 1:
		g.must("begin")
		s := list()
		g.must("end")
		return sx("begin", s)
	case 2:
		g.kw("if")
		c := g.exprD(1)
		g.must("then")
		els := closed || g.chance("else", 1, 2)
		th, el := g.nestStmt(k-1, els), none
		if els {
			g.kw("else")
			el = g.stmt(5, closed)
		}
		return sx("if", c, th, el)
	case 3:
		g.kw("if")
		c := g.exprD(1)
		g.must("then")
		th := g.stmt(5, true)
		g.kw("else")
		return sx("if", c, th, g.nestStmt(k-1, closed))
	case 4:
		g.kw("while")
		c := g.exprD(1)
		g.must("do")
		return sx("while", c, g.nestStmt(k-1, closed))
	case 5:
		g.kw("repeat")
		s := list()
		g.must("until")
		return sx("repeat", s, g.exprD(1))
	case 6:
		g.kw("for")
		q, _ := g.qualId()
		g.br(":=")
		a := g.exprD(1)
		g.must("downto")
		b := g.exprD(1)
		g.must("do")
		return sx("for", q, a, "downto", b, g.nestStmt(k-1, closed))
	case 7:
		g.kw("with")
		q, _ := g.qualId()
		g.must("do")
		return sx("with", lst([]string{q}), g.nestStmt(k-1, closed))
	case 8:
		g.must("try")
		s1 := list()
		if g.chance("except", 1, 2) {
			g.must("except")
			s2 := g.stmts(5)
			g.must("end")
			return sx("except", s1, "[]", s2)
		}
		g.must("finally")
		s2 := g.stmts(5)
		g.must("end")
		return sx("finally", s1, s2)
	default:
		g.must("case")
		e := g.exprD(1)
		g.must("of")
		l := g.constD()
		g.br(":")
		s := g.nestStmt(k-1, false)
		g.must("end")
		return sx("case", e, lst([]string{sx("sel", lst([]string{l}), s)}), "[]")
	}
}

func (g *G) stmtBody(depth int, closed bool) string {
	if g.spiking("stmt") {
		g.feat("spikestmt")
		f := g.fuel
		g.fuel = 0
		s := g.nestStmt(5+g.n("levels", 60), closed)
		g.fuel = f / 2
		return s
	}
	deep := depth < 5 && g.spend(2)
	max := 6
	if deep {
		max = 19
	}
	labels := g.visible(func(d *gdecl) bool { return d.kind == "label" && g.scope.get(d.name) == d })
	kind := 0
	if g.force > 0 {
		kind, g.force = g.force-1, 0
	} else {
		kind = g.n("stmt", max)
	}
	switch kind {
	case 0, 1:
		d := g.designator(1)
		g.p(":=")
		g.feat("assign")
		return sx(":=", d, g.exprD(1))
	case 2:
		d := g.designator(1)
		a := "[]"
		if g.chance("args", 2, 3) {
			a = g.args(1)
		}
		g.feat("callst")
		return sx("callst", d, a)
	case 3:
		return "(empty)"
	case 4:
		if len(labels) == 0 {
			g.kw("inherited")
			g.feat("inherited")
			return "(inherited)"
		}
		g.kw("goto")
		l := labels[g.n("label", len(labels)-1)]
		m, _ := g.ident(g.spell(l.name))
		s, _ := g.slot(l)
		g.feat("goto")
		return sx("goto", m+s)
	case 5:
		g.kw("raise")
		g.feat("raise")
		switch g.n("raise", 3) {
		case 0:
			return sx("raise", none, none)
		case 1:
			return sx("raise", g.exprD(1), none)
		case 2:
			g.kw("at")
			return sx("raise", none, g.exprD(1))
		}
		a := g.exprD(1)
		g.kw("at")
		return sx("raise", a, g.exprD(1))
	case 6:
		g.kw("inherited")
		g.feat("inherited")
		return "(inherited)"
	case 7, 8:
		g.must("begin")
		s := g.stmts(depth + 1)
		g.must("end")
		g.feat("compound")
		return sx("begin", s)
	case 9, 10, 11:
		g.kw("if")
		c := g.exprD(1)
		g.must("then")
		els := closed || g.chance("else", 1, 2)
		th := g.stmt(depth+1, els)
		el := none
		if els {
			g.kw("else")
			el = g.stmt(depth+1, closed)
			g.feat("ifelse")
		} else {
			g.feat("if")
		}
		return sx("if", c, th, el)
	case 12:
		g.kw("while")
		c := g.exprD(1)
		g.must("do")
		g.feat("while")
		return sx("while", c, g.stmt(depth+1, closed))
	case 13:
		g.kw("repeat")
		s := g.stmts(depth + 1)
		g.must("until")
		g.feat("repeat")
		return sx("repeat", s, g.exprD(1))
	case 14:
		g.kw("for")
		q, _ := g.qualId()
		g.br(":=")
		a := g.exprD(1)
		dir := pick(g.t, "dir", []string{"to", "downto"})
		g.must(dir)
		b := g.exprD(1)
		g.must("do")
		g.feat("for")
		return sx("for", q, a, dir, b, g.stmt(depth+1, closed))
	case 15:
		g.kw("with")
		n := g.count("objs", 1, 3)
		r := []string{}
		for i := 0; i < n; i++ {
			if i > 0 {
				g.p(",")
			}
			q, _ := g.qualId()
			r = append(r, q)
		}
		g.must("do")
		g.feat("with")
		return sx("with", lst(r), g.stmt(depth+1, closed))
	case 16:
		return g.caseStmt(depth)
	case 17:
		g.must("try")
		s1 := g.stmts(depth + 1)
		g.must("finally")
		s2 := g.stmts(depth + 1)
		g.must("end")
		g.feat("finally")
		return sx("finally", s1, s2)
	case 18:
		return g.tryExcept(depth)
	default:
		g.asmBlock()
		g.feat("asm")
		return "(asm)"
	}
}

func (g *G) asmBlock() {
	g.kw("asm")
	g.asm = true
	n := g.count("asm", 0, 6)
	for i := 0; i < n; i++ {
		switch g.n("asmtok", 5) {
		case 0:
			g.emit(Tok{S: pick(g.t, "op", []string{"mov", "eax", "ret", "begin", "then", "x"}), K: 'v'})
		case 1:
			g.p(",")
		case 2:
			g.emit(Tok{S: "1", K: 'n'})
		case 3:
			g.p("[")
		case 4:
			g.p(";")
		default:
			g.p(")")
		}
	}
	g.asm = false
	g.kw("end")
}

func (g *G) caseStmt(depth int) string {
	g.must("case")
	e := g.exprD(1)
	g.must("of")
	n := g.count("sels", 1, 3)
	hasElse := g.chance("caseelse", 1, 2)
	sel := []string{}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.p(";")
		}
		k := g.count("labels", 1, 3)
		ls := []string{}
		for j := 0; j < k; j++ {
			if j > 0 {
				g.p(",")
			}
			a := g.constD()
			if g.chance("caserange", 1, 3) {
				g.p("..")
				ls = append(ls, sx("..", a, g.constD()))
			} else {
				ls = append(ls, a)
			}
		}
		g.br(":")
		last := i == n-1
		// After a semicolon, ELSE is that of the CASE even if an IF is before it.
		semi := last && g.chance("lastsemi", 1, 2)
		sel = append(sel, sx("sel", lst(ls), g.stmt(depth+1, last && hasElse && !semi)))
		if semi {
			g.p(";")
		}
	}
	el := "[]"
	if hasElse {
		g.kw("else")
		el = g.stmts(depth + 1)
	}
	g.must("end")
	g.feat("case")
	return sx("case", e, lst(sel), el)
}

func (g *G) tryExcept(depth int) string {
	g.must("try")
	s := g.stmts(depth + 1)
	g.must("except")
	g.feat("except")
	if g.chance("nohandlers", 1, 2) {
		e := g.stmts(depth + 1)
		g.must("end")
		return sx("except", s, "[]", e)
	}
	n := g.count("handlers", 1, 3)
	hasElse := g.chance("exceptelse", 1, 3)
	h := []string{}
	outer := g.scope
	for i := 0; i < n; i++ {
		g.kw("on")
		g.scope = outer.push()
		id := none
		var d *gdecl
		if g.chance("named", 1, 2) {
			d, id = g.declare("handler", g.valuePool())
			g.br(":")
		}
		t := g.typeRef()
		if d != nil {
			g.define(d)
		}
		g.must("do")
		last := i == n-1
		semi := !last || g.chance("lastsemi", 1, 2)
		st := g.stmt(depth+1, last && hasElse && !semi)
		g.scope = outer
		h = append(h, sx("on", id, t, st))
		if semi {
			g.p(";")
		}
		g.feat("handler")
	}
	el := "[]"
	if hasElse {
		g.kw("else")
		el = g.stmts(depth + 1)
	}
	g.must("end")
	return sx("except", s, lst(h), el)
}

// ---------------------------------------------------------------------------
// Layout

type layout struct {
	Gaps []byte `json:"gaps,omitempty"`
	Kw   []byte `json:"kw,omitempty"`
}

func drawLayout(t *rapid.T) layout {
	return layout{
		Gaps: rapid.SliceOfN(rapid.Byte(), 0, 16).Draw(t, "gaps"),
		Kw:   rapid.SliceOfN(rapid.ByteRange(0, 4), 0, 5).Draw(t, "kw"),
	}
}

var gapList = []string{" ", "", "", "", "\n", "\n", "\r\n", "\t", "  ", "{c}", "{ a\n b }", "(* c *)", "(*)*)", "// c\n", "//\r\n", "{}", " {$R *.res} ", "\n\n", " // 'x' {\n", "(* { *)", longGap, "\n" + strings.Repeat(" ", 90), strings.Repeat("\n", 40)}
var longGap = "{ " + strings.Repeat("a long comment, ", 20) + "}"
var wideGaps = []string{"\u3000", "{ 日本語 }", "// 表\n", "(*ソ*)"}
var textGaps = []string{"\u00a0", "\u2003", "\v", "\f", "\u0085", "{é}"}

func needSep(a, b Tok) bool {
	if a.K == 0 || b.K == 0 {
		return false
	}
	wordy := func(k byte) bool { return k == 'k' || k == 'i' || k == 'v' }
	switch {
	case wordy(a.K) && (wordy(b.K) || b.K == 'n' && b.S[0] != '-'):
		return true
	case a.K == 'n' && b.K == 'n' && b.S[0] != '-':
		return true
	case a.K == 'n' && b.S == ".":
		return true
	case a.K == 's' && b.K == 's':
		return true
	case a.Glue && a.S == "-" && b.K == 'n':
		return true
	case a.K == 'p' && b.K == 'p':
		switch a.S + b.S {
		case "(.", ".)", "..", ":=", "<=", ">=", "<>", "(*", "//", "...", "....":
			return true
		}
		if strings.HasSuffix(a.S, ".") && strings.HasPrefix(b.S, ".") || a.S == ":" && b.S == "=" {
			return true
		}
	}
	return false
}

type tokPos struct{ line, col, idx, eline, ecol, eidx int }

type rendered struct {
	text string
	pos  []tokPos
	end  tokPos
}

// render lays the tokens out. sjis: only characters which Shift-JIS has.
func render(toks []Tok, l layout, sjis bool) rendered {
	gaps := append([]string{}, gapList...)
	gaps = append(gaps, wideGaps...)
	if !sjis {
		gaps = append(gaps, textGaps...)
	}
	var rs []rune
	line, col := 1, 1
	put := func(s string) {
		for _, r := range s {
			rs = append(rs, r)
			if r == '\n' {
				line++
				col = 1
			} else {
				col++
			}
		}
	}
	res := rendered{}
	kwi := 0
	var prev Tok
	for i, t := range toks {
		if i > 0 || len(l.Gaps) > 0 {
			gap := " "
			if len(l.Gaps) > 0 {
				gap = gaps[int(l.Gaps[i%len(l.Gaps)])%len(gaps)]
			}
			if i == 0 {
				// A text doesn't begin with a line feed (see known-findings.txt).
				gap = strings.TrimLeft(gap, "\n")
			}
			if prev.S == "/" && strings.HasPrefix(gap, "/") || prev.S == "(" && strings.HasPrefix(gap, "*") {
				gap = " " + gap
			}
			if gap == "" && needSep(prev, t) {
				gap = " "
			}
			put(gap)
		}
		s := t.S
		if t.K == 'k' {
			if len(l.Kw) > 0 {
				s = caseVariant(s, int(l.Kw[kwi%len(l.Kw)]))
			}
			kwi++
		}
		p := tokPos{line: line, col: col, idx: len(rs)}
		put(s)
		p.eline, p.ecol, p.eidx = line, col, len(rs)
		res.pos = append(res.pos, p)
		prev = t
	}
	if len(l.Gaps) > 0 {
		put(gaps[int(l.Gaps[len(toks)%len(l.Gaps)])%len(gaps)])
	}
	res.end = tokPos{line: line, col: col, idx: len(rs)}
	res.text = string(rs)
	return res
}

// expand replaces the markers of the expected tree.
func (g *G) expand(s string, rend []rendered, mode string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 1:
			j := strings.IndexByte(s[i:], 2) + i
			f, t := splitInts(s[i+1 : j])
			tok := g.files[f].toks[t]
			if mode == modeLoc {
				p := rend[f].pos[t]
				fmt.Fprintf(&sb, "%s@%d:%d:%d-%d:%d:%d", tok.S, p.line, p.col, p.idx, p.eline, p.ecol, p.eidx)
			} else {
				sb.WriteString(tok.S)
			}
			i = j
		case 3:
			j := strings.IndexByte(s[i:], 4) + i
			k, _ := strconv.Atoi(s[i+1 : j])
			if mode == modeRefs {
				sb.WriteString(g.refString(g.slots[k], rend))
			}
			i = j
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

func splitInts(s string) (int, int) {
	a, b, _ := strings.Cut(s, ":")
	x, _ := strconv.Atoi(a)
	y, _ := strconv.Atoi(b)
	return x, y
}

func (g *G) refString(d *gdecl, rend []rendered) string {
	if d == nil {
		return "->nil"
	}
	if d.kind == "builtin" {
		return "->builtin:" + strings.ToUpper(d.name)
	}
	p := rend[d.file].pos[d.tok]
	return fmt.Sprintf("->%s:%s@%d:%d:%d", d.kind, g.files[d.file].toks[d.tok].S, d.file, p.line, p.col)
}
