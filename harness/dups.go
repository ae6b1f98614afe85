package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P14: a name is declared once per scope

// dName is a place where a name is declared.
type dName struct {
	pos     int // in the list of pieces
	name    string
	kind    string
	routine bool
	part    int // names of one declaration have the same number
}

// dScope has the names declared in one scope.
type dScope struct {
	kind  string
	own   string // the name of the routine which the scope belongs to
	names []dName
}

type dGen struct {
	t      *rapid.T
	pieces []string
	scopes []*dScope
	part   int
	fuel   int
	seq    int
	spike  int // a list which is very long: counts down, -1 for none
}

// k draws how many more than one there are: now and then very many.
func (d *dGen) k(max int) int {
	if d.spike >= 0 {
		d.spike--
		if d.spike == 0 {
			return max + 8 + uniform(d.t, 120)
		}
	}
	return uniform(d.t, max)
}

var dupPool = strings.Fields("alpha Beta GAMMA d_1 Eps zeta Ητα Th Name Index")

func (d *dGen) w(s string) { d.pieces = append(d.pieces, s) }

// name writes the declaration of a new name in the scope.
func (d *dGen) name(s *dScope, kind string) string {
	var free []string
	for _, n := range dupPool {
		if strings.EqualFold(n, s.own) || s.has(n) {
			continue
		}
		free = append(free, n)
	}
	var n string
	if len(free) == 0 || uniform(d.t, 7) == 0 {
		d.seq++
		n = fmt.Sprintf("N%d", d.seq)
		if uniform(d.t, 15) == 15 {
			n = fmt.Sprintf("N%s%d", strings.Repeat("aB_9", 1+uniform(d.t, 70)), d.seq)
		}
	} else {
		n = pick(d.t, "name", free)
	}
	n = recase(d.t, n)
	d.put(s, kind, n)
	return n
}

func (d *dGen) put(s *dScope, kind, n string) {
	s.names = append(s.names, dName{pos: len(d.pieces), name: n, kind: kind, routine: kind == "routine", part: d.part})
	d.w(n)
}

func (s *dScope) has(n string) bool {
	for _, x := range s.names {
		if strings.EqualFold(x.name, n) {
			return true
		}
	}
	return false
}

func (d *dGen) scope(kind, own string) *dScope {
	s := &dScope{kind: kind, own: own}
	d.scopes = append(d.scopes, s)
	return s
}

// typ writes a type, which may declare elements of enumerated types in the scope.
func (d *dGen) typ(s *dScope, depth int) {
	k := uniform(d.t, 13)
	if depth > 2 {
		k = 0
	}
	switch k {
	default:
		d.w(pick(d.t, "builtin", []string{" Integer ", " string ", " Boolean "}))
	case 6, 7:
		d.w(" (")
		for i, n := 0, 1+d.k(3); i < n; i++ {
			if i > 0 {
				d.w(", ")
			}
			d.name(s, "element")
			if uniform(d.t, 5) == 0 {
				d.w(fmt.Sprintf(" = %d", i))
			}
		}
		d.w(") ")
	case 8:
		d.w(" array [")
		d.w("1..2")
		d.w("] of ")
		d.typ(s, depth+1)
	case 9:
		d.w(" set of (")
		d.name(s, "element")
		d.w(") ")
	case 10, 11:
		d.w(" record f, g:")
		d.typ(s, depth+1)
		d.w("; h:")
		d.typ(s, depth+1)
		d.w(" end ")
	case 12, 13:
		d.w(" procedure ")
		d.params(d.scope("procedural type", ""), "(", ")", depth+1)
	}
}

func (d *dGen) params(s *dScope, open, cl string, depth int) {
	d.w(open)
	for i, n := 0, 1+d.k(2); i < n; i++ {
		if i > 0 {
			d.w("; ")
		}
		d.part++
		d.w(pick(d.t, "opt", []string{"", "", " var ", " const ", " out "}))
		for j, m := 0, 1+d.k(1); j < m; j++ {
			if j > 0 {
				d.w(", ")
			}
			d.name(s, "parameter")
		}
		switch uniform(d.t, 5) {
		case 0:
		case 1:
			d.w(": array of Integer")
		case 2:
			d.w(": set of (")
			d.name(s, "element")
			d.w(")")
		case 3:
			d.w(": (")
			d.name(s, "element")
			d.w(", ")
			d.name(s, "element")
			d.w(")")
		default:
			d.w(": Integer")
		}
	}
	d.w(cl)
}

func (d *dGen) class(s *dScope) {
	d.w(" = class\n")
	if coin.Draw(d.t, "field") {
		d.w("    fa, fb:")
		d.typ(s, 1)
		d.w(";\n")
	}
	for i, n := 0, uniform(d.t, 2); i < n; i++ {
		d.w(fmt.Sprintf("    procedure M%d", i))
		d.params(d.scope("method", ""), "(", ")", 1)
		d.w(";\n")
	}
	if coin.Draw(d.t, "prop") {
		d.w("    property Items")
		d.params(d.scope("property", ""), "[", "]", 1)
		d.w(": Integer;\n")
	}
	d.w("  end;\n")
}

func (d *dGen) decls(s *dScope, depth int) {
	n := 1 + uniform(d.t, 4)
	for i := 0; i < n && d.fuel > 0; i++ {
		d.fuel--
		d.part++
		k := uniform(d.t, 9)
		if s.kind == "interface" && k == 9 {
			k = 8
		}
		m := 1 + d.k(1)
		switch k {
		case 0, 1:
			d.w("const\n")
			for j := 0; j < m; j++ {
				d.part++
				d.w("  ")
				d.name(s, "const")
				if uniform(d.t, 2) == 0 {
					d.w(":")
					d.typ(s, 0)
				}
				d.w(" = 1;\n")
			}
		case 2, 3, 4:
			w := pick(d.t, "var", []string{"var", "var", "threadvar"})
			d.w(w + "\n")
			for j := 0; j < m; j++ {
				d.part++
				d.w("  ")
				c := 1 + d.k(2)
				for l := 0; l < c; l++ {
					if l > 0 {
						d.w(", ")
					}
					d.name(s, w)
				}
				d.w(":")
				d.typ(s, 0)
				if c == 1 && w == "var" {
					switch uniform(d.t, 7) {
					case 0:
						d.w(" absolute " + pick(d.t, "absolute", dupPool))
					case 1:
						d.w(" = 1")
					}
				}
				d.w(";\n")
			}
		case 5, 6, 7:
			d.w("type\n")
			for j := 0; j < m; j++ {
				d.part++
				d.w("  ")
				switch uniform(d.t, 4) {
				case 0:
					n := d.name(s, "class")
					d.class(s)
					_ = n
				case 1:
					// a forward class and its completion
					d.part++
					n := d.name(s, "forward class")
					d.w(" = class;\n  ")
					d.w(recase(d.t, n))
					d.class(s)
				default:
					d.name(s, "type")
					d.w(" =")
					switch uniform(d.t, 15) {
					case 0:
						d.w(" class of TObject")
					case 1:
						d.w(" type string")
					case 2:
						d.w(" class (TObject) end")
					case 3:
						d.w(" 1 .. 5")
					case 4:
						d.w(" string[5]")
					case 5:
						d.w(" file of Char")
					case 6:
						d.w(" ^TObject")
					default:
						d.typ(s, 0)
					}
					if uniform(d.t, 15) == 0 {
						d.w(pick(d.t, "portability", []string{" platform", " deprecated", " library"}))
					}
					d.w(";\n")
				}
			}
		case 8:
			d.routine(s, depth)
		default:
			d.w("label ")
			d.name(s, "label")
			d.w(";\n")
		}
	}
}

func (d *dGen) routine(s *dScope, depth int) {
	d.part++
	// A routine may be declared again.
	again := ""
	for _, x := range s.names {
		if x.routine && !strings.EqualFold(x.name, s.own) && uniform(d.t, 3) == 0 {
			again = x.name
		}
	}
	function := uniform(d.t, 2) == 0
	if function {
		d.w("function ")
	} else {
		d.w("procedure ")
	}
	if again != "" {
		d.w(recase(d.t, again))
	} else {
		again = d.name(s, "routine")
	}
	in := d.scope("routine", again)
	if uniform(d.t, 2) > 0 {
		d.params(in, "(", ")", 1)
	}
	if function {
		d.w(": Integer")
	}
	d.w(";")
	for uniform(d.t, 4) == 0 {
		d.w(pick(d.t, "directive", []string{" overload;", " stdcall;", " cdecl;", " register;"}))
	}
	if s.kind == "interface" {
		d.w("\n")
		return
	}
	switch uniform(d.t, 10) {
	case 0, 1:
		d.w(" forward;\n")
		return
	case 2:
		d.w(" external 'a.dll';\n")
		return
	}
	d.w("\n")
	if depth < 3 {
		d.decls(in, depth+1)
	}
	d.body()
	d.w(";\n")
}

func (d *dGen) body() {
	d.w("begin\n")
	for i, n := 0, uniform(d.t, 1); i < n; i++ {
		d.handler(0)
	}
	d.w("end")
}

// handler: the name of a handler may be used again in any other scope.
func (d *dGen) handler(depth int) {
	d.w(fmt.Sprintf("try except on %s: TError do ", recase(d.t, pick(d.t, "name", dupPool))))
	if depth < 2 && coin.Draw(d.t, "nested") {
		d.handler(depth + 1)
	}
	d.w(" end;\n")
}

type dupCase struct {
	Kind string   `json:"kind"`
	Good string   `json:"good"`
	Bad  []string `json:"bad"`
	Pair []string `json:"pair"` // what is declared twice in the wrong texts
	Deep int      `json:"deep"`
}

func genDup(t *rapid.T) dupCase {
	d := &dGen{t: t, fuel: 4 + uniform(t, 16), spike: -1}
	if uniform(t, 15) == 15 {
		d.spike = 1 + uniform(t, 15)
	}
	c := dupCase{Kind: "program"}
	uses := func() {
		if uniform(t, 3) == 0 {
			s := d.scope("uses", "")
			d.w("uses ")
			for i, n := 0, 1+d.k(3); i < n; i++ {
				if i > 0 {
					d.w(", ")
				}
				d.part++
				d.put(s, "uses item", fmt.Sprintf("Unit%d", 1+i))
			}
			d.w(";\n")
		}
	}
	if coin.Draw(t, "unit") {
		c.Kind = "unit"
		d.w("unit U;\ninterface\n")
		uses()
		in := d.scope("interface", "")
		d.decls(in, 0)
		d.w("implementation\n")
		// What the interface declares isn't used for names of the implementation:
		// the language forbids it, the parser doesn't care.
		im := d.scope("implementation", "")
		im.names = append(im.names, in.names...)
		d.decls(im, 0)
		im.names = im.names[len(in.names):]
		d.w("end.\n")
	} else {
		d.w("program Main;\n")
		uses()
		s := d.scope("program", "")
		d.decls(s, 0)
		d.body()
		d.w(".\n")
	}
	c.Good = strings.Join(d.pieces, "")
	for _, s := range d.scopes {
		if len(s.names) > 1 {
			c.Deep++
		}
	}
	// Some pairs of names in one scope become duplicates.
	for i, n := 0, 1+uniform(t, 2); i < n; i++ {
		var ss []*dScope
		for _, s := range d.scopes {
			if len(s.names) > 1 {
				ss = append(ss, s)
			}
		}
		if len(ss) == 0 {
			break
		}
		s := pick(t, "scope", ss)
		a := uniform(t, len(s.names)-2)
		b := a + 1 + uniform(t, len(s.names)-2-a)
		x, y := s.names[a], s.names[b]
		if x.routine && y.routine {
			continue
		}
		p := append([]string{}, d.pieces...)
		p[y.pos] = recase(t, x.name)
		c.Bad = append(c.Bad, strings.Join(p, ""))
		c.Pair = append(c.Pair, x.kind+"/"+y.kind+" in "+s.kind)
	}
	return c
}

func checkDup(c *dupCase) error {
	if _, err := parseText(c.Kind, c.Good); err != nil {
		return fmt.Errorf("a correct %s, where names are declared again only in inner scopes, is rejected: %v\n%s", c.Kind, err, c.Good)
	}
	for i, b := range c.Bad {
		if _, err := parseText(c.Kind, b); err == nil {
			return fmt.Errorf("a name is declared twice (%s), but the %s is accepted\n%s", c.Pair[i], c.Kind, b)
		}
	}
	return nil
}

func init() {
	properties = append(properties,
		&Property{ID: "P14", Facets: []Facet{
			facet("pairs", "programs and units with nested scopes which reuse 10 names, where any pair of declarations of a scope gets the same name in any letter case; non-trivial: at least one wrong text and two scopes with several names", 60000, 3000000,
				genDup, checkDup, func(c *dupCase) bool { return len(c.Bad) > 0 && c.Deep > 1 }, func(c *dupCase) []string { return append([]string{c.Kind}, c.Pair...) }),
		}},
	)
}
