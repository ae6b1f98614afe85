package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P09: lookup of members and properties in class hierarchies

type hProp struct {
	Typed   bool   `json:"typed,omitempty"`
	Index   bool   `json:"index,omitempty"`
	Read    string `json:"read,omitempty"`
	Write   string `json:"write,omitempty"`
	Stored  string `json:"stored,omitempty"`
	Default string `json:"default,omitempty"`
	Impl    bool   `json:"impl,omitempty"`
}

type hMember struct {
	Kind string `json:"kind"` // field, procedure, function, constructor, destructor, class procedure, property
	Name string `json:"name"`
	Join bool   `json:"join,omitempty"` // a field declared together with the one before it
	Prop *hProp `json:"prop,omitempty"`
}

type hSection struct {
	Vis     string    `json:"vis"` // "" is the default
	Members []hMember `json:"members"`
}

type hClass struct {
	Name   string `json:"name"`
	Parent int    `json:"parent"`          // index of a class, -1 none, -2 a class which isn't known
	Alias  int    `json:"alias,omitempty"` // the parent is given by an alias of an alias ... so many times
	// Late: the parent is only declared forward when this class is declared.
	Late     bool       `json:"late,omitempty"`
	Extra    int        `json:"extra"` // a second name in the heritage: index of a class, or -1
	Forward  bool       `json:"forward,omitempty"`
	NewType  bool       `json:"newtype,omitempty"` // begins a new type section
	Short    bool       `json:"short,omitempty"`   // class(...); without members and end
	Sections []hSection `json:"sections"`
}

type hierCase struct {
	Unit    bool     `json:"unit"`
	Classes []hClass `json:"classes"`
	Order   []int    `json:"order"` // order of declaration
	Names   []string `json:"names"` // names to look up, with some spelling
	Thin    bool     `json:"thin,omitempty"`
	Crowd   int      `json:"crowd,omitempty"` // so many members which nothing refers to
}

var hierNames = strings.Fields("Alpha Beta gamma Δέλτα eps_1 ÄÖ_x")

func spellings(n string) []string {
	return []string{n, strings.ToLower(n), strings.ToUpper(n)}
}

// hLookup finds a member as the rules say. seen: how many members of the class
// itself are declared (-1: all).
type hPos struct{ class, section, member int }

func (c *hierCase) find(class int, name string, own func(p hPos) bool, private bool, pred func(m *hMember) bool, visible func(class int) bool) (hPos, bool) {
	first := true
	for k := class; k >= 0; k = c.Classes[k].Parent {
		if !first && !visible(k) {
			break
		}
		for s := range c.Classes[k].Sections {
			sec := &c.Classes[k].Sections[s]
			if sec.Vis == "private" && !(private && first) {
				continue
			}
			for i := range sec.Members {
				p := hPos{k, s, i}
				if first && !own(p) {
					continue
				}
				if strings.EqualFold(sec.Members[i].Name, name) && pred(&sec.Members[i]) {
					return p, true
				}
			}
		}
		first = false
	}
	return hPos{}, false
}

func (c *hierCase) member(p hPos) *hMember {
	return &c.Classes[p.class].Sections[p.section].Members[p.member]
}

func (c *hierCase) pos(class int) int {
	for i, k := range c.Order {
		if k == class {
			return i
		}
	}
	return -1
}

// declaredBefore: the ancestor chain of the class as it is known when the class is declared.
func (c *hierCase) knownAt(class int) func(int) bool {
	return func(k int) bool { return c.pos(k) < c.pos(class) }
}

func anyMember(*hMember) bool  { return true }
func anyPos(hPos) bool         { return true }
func anyClass(int) bool        { return true }
func isProp(m *hMember) bool   { return m.Kind == "property" }
func isNoProp(m *hMember) bool { return m.Kind != "property" }

// before: the members of the class which are complete when a property is read:
// those of the sections before it, and the fields and methods of its own section.
func beforeProp(c *hierCase, at hPos) func(hPos) bool {
	return func(p hPos) bool {
		return p.section < at.section || p.section == at.section && isNoProp(c.member(p))
	}
}

func genHier(t *rapid.T) hierCase {
	c := hierCase{Unit: coin.Draw(t, "unit")}
	n := 1 + many(t, 5, 40)
	// Many classes are mostly one long line of ancestors, in which few declare anything.
	c.Thin = n > 6 && uniform(t, 3) > 0
	for i := 0; i < n; i++ {
		cl := hClass{Name: fmt.Sprintf("TClass%d", i), Parent: i - 1, Extra: -1}
		k := uniform(t, 9)
		if c.Thin && uniform(t, 7) > 0 {
			k = 9
		}
		switch k {
		case 0:
			cl.Parent = -1
		case 1:
			cl.Parent = -2
		case 2, 3:
			cl.Parent = uniform(t, n) - 1
			if cl.Parent >= i {
				cl.Parent = i - 1
			}
		}
		if cl.Parent >= 0 {
			if uniform(t, 4) == 0 {
				cl.Alias = 1 + many(t, 1, 8)
			}
			if uniform(t, 7) == 0 {
				cl.Late = true
			}
			if i > 0 && uniform(t, 5) == 0 {
				cl.Extra = uniform(t, i-1)
			}
		}
		cl.Forward = uniform(t, 4) == 0
		cl.NewType = uniform(t, 4) == 0
		c.Classes = append(c.Classes, cl)
	}
	// A class with a late parent comes right before the parent.
	for i := range c.Classes {
		c.Order = append(c.Order, i)
	}
	for i := range c.Classes {
		cl := &c.Classes[i]
		if !cl.Late {
			continue
		}
		p := &c.Classes[cl.Parent]
		// Only if nothing declared between them needs to be before it.
		a, b := c.pos(cl.Parent), c.pos(i)
		if b != a+1 || cl.Extra == cl.Parent || p.Late {
			cl.Late = false
			continue
		}
		c.Order[a], c.Order[b] = c.Order[b], c.Order[a]
		p.Forward = true
	}
	for i := range c.Classes {
		// The forward declaration must be in the same type section.
		c.Classes[i].NewType = c.Classes[i].NewType && !c.anyForward() && c.pos(i) > 0
	}
	for _, i := range c.Order {
		c.genMembers(t, i)
	}
	for _, n := range hierNames {
		c.Names = append(c.Names, pick(t, "spell", spellings(n)))
	}
	for k := 0; k < 4 && c.Crowd > 0; k++ {
		c.Names = append(c.Names, pick(t, "spell", spellings(fmt.Sprintf("Member%d", 1+uniform(t, c.Crowd-1)))))
	}
	return c
}

func (c *hierCase) anyForward() bool {
	for _, k := range c.Classes {
		if k.Forward {
			return true
		}
	}
	return false
}

func (c *hierCase) genMembers(t *rapid.T, i int) {
	cl := &c.Classes[i]
	ns := uniform(t, 3)
	if c.Thin && i > 0 && uniform(t, 9) > 0 {
		// nothing, or one property which is redeclared
		ns = 0
		if !cl.Late && uniform(t, 5) == 0 {
			vis := pick(t, "vis", []string{"protected", "public", "published"})
			m := hMember{Kind: "property", Name: pick(t, "spell", spellings(pick(t, "name", hierNames))), Prop: &hProp{}}
			cl.Sections = append(cl.Sections, hSection{Vis: vis, Members: []hMember{m}})
			return
		}
		if cl.Parent != -1 && coin.Draw(t, "short") {
			cl.Short = true
		}
		return
	}
	free := append([]string{}, hierNames...)
	// crowd adds members which nothing refers to.
	crowd := func(sec *hSection, kind string) {
		if uniform(t, 63) != 63 {
			return
		}
		for k := 1 + uniform(t, 60); k > 0; k-- {
			c.Crowd++
			m := hMember{Kind: kind, Name: fmt.Sprintf("Member%d", c.Crowd)}
			if kind == "property" {
				m.Prop = &hProp{Typed: true}
			}
			sec.Members = append(sec.Members, m)
		}
	}
	take := func() (string, bool) {
		if len(free) == 0 {
			return "", false
		}
		k := uniform(t, len(free)-1)
		n := free[k]
		free = append(free[:k:k], free[k+1:]...)
		return pick(t, "spell", spellings(n)), true
	}
	for s := 0; s < ns; s++ {
		vis := pick(t, "vis", []string{"", "private", "protected", "public", "published"})
		if s > 0 && vis == "" {
			vis = "private"
		}
		cl.Sections = append(cl.Sections, hSection{Vis: vis})
		sec := &cl.Sections[s]
		nf, nm, np := uniform(t, 2), uniform(t, 2), uniform(t, 2)
		if vis == "" && nf+nm+np == 0 {
			nf = 1
		}
		crowd(sec, "field")
		for k := 0; k < nf; k++ {
			if n, ok := take(); ok {
				sec.Members = append(sec.Members, hMember{Kind: "field", Name: n, Join: k > 0 && coin.Draw(t, "join")})
			}
		}
		crowd(sec, "procedure")
		for k := 0; k < nm; k++ {
			if n, ok := take(); ok {
				sec.Members = append(sec.Members, hMember{Kind: pick(t, "kind", []string{"procedure", "function", "constructor", "destructor", "class procedure", "class function"}), Name: n})
			}
		}
		if cl.Late {
			continue
		}
		crowd(sec, "property")
		for k := 0; k < np; k++ {
			n, ok := take()
			if !ok {
				break
			}
			at := hPos{i, s, len(sec.Members)}
			p := &hProp{Typed: uniform(t, 2) > 0, Index: uniform(t, 4) == 0, Impl: uniform(t, 8) == 0}
			ref := func() string {
				var vis []string
				for _, x := range hierNames {
					if _, ok := c.find(i, x, beforeProp(c, at), true, anyMember, c.knownAt(i)); ok {
						vis = append(vis, x)
					}
				}
				if len(vis) == 0 {
					return ""
				}
				return pick(t, "spell", spellings(pick(t, "ref", vis)))
			}
			if uniform(t, 2) > 0 {
				p.Read = ref()
			}
			if uniform(t, 1) > 0 {
				p.Write = ref()
			}
			switch uniform(t, 5) {
			case 3:
				p.Stored = "true"
			case 4:
				p.Stored = "false"
			case 5:
				p.Stored = ref()
			}
			switch uniform(t, 5) {
			case 4:
				p.Default = "1"
			case 5:
				p.Default = "nodefault"
			}
			sec.Members = append(sec.Members, hMember{Kind: "property", Name: n, Prop: p})
		}
	}
}

// text writes the source; line gives the line of each member.
func (c *hierCase) text() (string, map[hPos]int) {
	var sb strings.Builder
	lineNo := 1
	pos := map[hPos]int{}
	w := func(s string) { sb.WriteString(s); lineNo += strings.Count(s, "\n") }
	if c.Unit {
		w("unit U;\ninterface\n")
	} else {
		w("program P;\n")
	}
	w("type\n")
	for i := range c.Classes {
		if c.Classes[i].Forward {
			w("  " + c.Classes[i].Name + " = class;\n")
		}
	}
	for _, i := range c.Order {
		cl := &c.Classes[i]
		if cl.NewType {
			w("type\n")
		}
		her := ""
		switch {
		case cl.Parent == -2:
			her = "TUnknown"
		case cl.Parent >= 0:
			her = c.Classes[cl.Parent].Name
			for k := 0; k < cl.Alias; k++ {
				a := fmt.Sprintf("TAlias%d_%d", i, k)
				w("  " + a + " = " + her + ";\n")
				her = a
			}
		}
		if cl.Extra >= 0 {
			her += ", " + c.Classes[cl.Extra].Name
		}
		w("  " + cl.Name + " = class")
		if her != "" {
			w("(" + her + ")")
		}
		if cl.Short {
			w(";\n")
			continue
		}
		w("\n")
		for s := range cl.Sections {
			sec := &cl.Sections[s]
			if sec.Vis != "" {
				w("  " + sec.Vis + "\n")
			}
			for k := range sec.Members {
				m := &sec.Members[k]
				pos[hPos{i, s, k}] = lineNo
				switch m.Kind {
				case "field":
					w("    " + m.Name)
					if k+1 < len(sec.Members) && sec.Members[k+1].Kind == "field" && sec.Members[k+1].Join {
						w(",\n")
					} else {
						w(": Integer;\n")
					}
				case "property":
					p := m.Prop
					w("    property " + m.Name)
					if p.Typed {
						w(": Integer")
					}
					if p.Index {
						w(" index 3")
					}
					if p.Read != "" {
						w(" read " + p.Read)
					}
					if p.Write != "" {
						w(" write " + p.Write)
					}
					if p.Stored != "" {
						w(" stored " + p.Stored)
					}
					if p.Default == "nodefault" {
						w(" nodefault")
					} else if p.Default != "" {
						w(" default " + p.Default)
					}
					if p.Impl {
						w(" implements IThing")
					}
					w(";\n")
				case "function", "class function":
					w("    " + m.Kind + " " + m.Name + ": Integer;\n")
				default:
					w("    " + m.Kind + " " + m.Name + ";\n")
				}
			}
		}
		w("  end;\n")
	}
	if c.Unit {
		w("implementation\nend.\n")
	} else {
		w("begin\nend.\n")
	}
	return sb.String(), pos
}

func memberDeclKind(n any) string {
	switch n.(type) {
	case *ast.ClassField:
		return "field"
	case *ast.ClassMethod:
		return "method"
	case *ast.ClassProperty:
		return "property"
	}
	return fmt.Sprintf("%T", n)
}

func memberKind(k string) string {
	if k == "field" || k == "property" {
		return k
	}
	return "method"
}

func checkHier(c *hierCase) error {
	text, lines := c.text()
	kind := "program"
	if c.Unit {
		kind = "unit"
	}
	root, err := parseText(kind, text)
	if err != nil {
		return fmt.Errorf("a correct %s is rejected: %v\n%s", kind, err, text)
	}
	classes := map[string]*ast.CustomClassType{}
	var secs []any
	switch r := root.(type) {
	case *ast.Program:
		for _, d := range r.ProgramBlock.Block.DeclSections {
			secs = append(secs, d)
		}
	case *ast.Unit:
		for _, d := range r.InterfaceSection.InterfaceDecls {
			secs = append(secs, d)
		}
	}
	for _, s := range secs {
		ts, ok := s.(ast.TypeSection)
		if !ok {
			return fmt.Errorf("a section is a %T", s)
		}
		for _, d := range ts {
			if ct, ok := d.Type.(*ast.CustomClassType); ok {
				classes[d.Ident.Name] = ct
			}
		}
	}
	wrap := func(format string, a ...any) error {
		return fmt.Errorf("%s\n%s", fmt.Sprintf(format, a...), text)
	}
	// declAt tells whether the declaration is the member.
	declAt := func(d *astcore.Decl, p hPos) error {
		m := c.member(p)
		if d == nil {
			return fmt.Errorf("nothing is found, want the %s of line %d", m.Kind, lines[p])
		}
		if d.Ident == nil || d.Ident.Name != m.Name || d.Ident.Location == nil || d.Ident.Location.Start.Line != lines[p] || memberDeclKind(d.Node) != memberKind(m.Kind) {
			return fmt.Errorf("found is %v (%T), want the %s of line %d", d.Ident, d.Node, m.Kind, lines[p])
		}
		return nil
	}
	prop := func(p hPos) *ast.ClassProperty {
		ct := classes[c.Classes[p.class].Name]
		for _, s := range ct.Members {
			for _, x := range s.ClassPropertyList {
				if x.Ident.Location.Start.Line == lines[p] {
					return x
				}
			}
		}
		return nil
	}
	for i := range c.Classes {
		cl := &c.Classes[i]
		ct := classes[cl.Name]
		if ct == nil {
			return wrap("the class %s isn't in the tree", cl.Name)
		}
		for _, n := range append([]string{"nothing"}, c.Names...) {
			for _, private := range []bool{false, true} {
				want, ok := c.find(i, n, anyPos, private, anyMember, anyClass)
				got := ct.FindMemberDecl(n, private)
				if !ok {
					if got != nil {
						return wrap("%s.FindMemberDecl(%s, %v) finds the member of line %d, want nothing", cl.Name, n, private, got.Ident.Location.Start.Line)
					}
				} else if err := declAt(got, want); err != nil {
					return wrap("%s.FindMemberDecl(%s, %v): %v", cl.Name, n, private, err)
				}
			}
			// Properties: the nearest one, whatever its visibility.
			for _, up := range []bool{false, true} {
				want, ok := c.findProp(i, n, up, anyClass)
				got := ct.FindProperty(n, up)
				if ok != (got != nil) || ok && got != prop(want) {
					return wrap("%s.FindProperty(%s, %v) finds %v, want %v", cl.Name, n, up, got != nil, ok)
				}
			}
		}
		for s := range cl.Sections {
			for k := range cl.Sections[s].Members {
				at := hPos{i, s, k}
				m := c.member(at)
				if m.Prop == nil {
					continue
				}
				p := prop(at)
				if p == nil {
					return wrap("the property of line %d isn't in the tree", lines[at])
				}
				if err := c.checkProp(at, p, prop, declAt); err != nil {
					return wrap("the property %s of line %d: %v", m.Name, lines[at], err)
				}
			}
		}
	}
	return nil
}

func (c *hierCase) findProp(class int, name string, up bool, visible func(int) bool) (hPos, bool) {
	for k := class; k >= 0; k = c.Classes[k].Parent {
		if k != class && !visible(k) {
			break
		}
		for s := range c.Classes[k].Sections {
			for i := range c.Classes[k].Sections[s].Members {
				m := &c.Classes[k].Sections[s].Members[i]
				if isProp(m) && strings.EqualFold(m.Name, name) {
					return hPos{k, s, i}, true
				}
			}
		}
		if !up {
			break
		}
	}
	return hPos{}, false
}

func (c *hierCase) checkProp(at hPos, p *ast.ClassProperty, prop func(hPos) *ast.ClassProperty, declAt func(*astcore.Decl, hPos) error) error {
	m := c.member(at)
	// The accessors are the members of their names at that point.
	accessor := func(what, name string, ref *astcore.IdentRef) error {
		if name == "" || name == "true" || name == "false" {
			if ref != nil {
				return fmt.Errorf("it has a reference for %s", what)
			}
			return nil
		}
		if ref == nil || ref.Ident == nil || ref.Ident.Name != name {
			return fmt.Errorf("%s isn't %s", what, name)
		}
		want, ok := c.find(at.class, name, beforeProp(c, at), true, anyMember, c.knownAt(at.class))
		if !ok {
			return fmt.Errorf("harness: %s isn't declared", name)
		}
		if err := declAt(ref.Ref, want); err != nil {
			return fmt.Errorf("%s %s: %v", what, name, err)
		}
		return nil
	}
	if err := accessor("read", m.Prop.Read, p.Read); err != nil {
		return err
	}
	if err := accessor("write", m.Prop.Write, p.Write); err != nil {
		return err
	}
	var st *astcore.IdentRef
	if p.Stored != nil {
		st = p.Stored.IdentRef
	}
	if err := accessor("stored", m.Prop.Stored, st); err != nil {
		return err
	}
	// The chain of declarations from this property up to the one which gives the type.
	chain := []hPos{at}
	for !c.member(chain[len(chain)-1]).Prop.Typed {
		last := chain[len(chain)-1]
		k := c.Classes[last.class].Parent
		if k < 0 || !c.knownAt(last.class)(k) {
			break
		}
		next, ok := c.findProp(k, m.Name, true, c.knownAt(last.class))
		if !ok {
			break
		}
		chain = append(chain, next)
	}
	var wantParent *ast.ClassProperty
	if len(chain) > 1 {
		wantParent = prop(chain[1])
	}
	if p.Parent != wantParent {
		return fmt.Errorf("Parent is wrong (want one: %v, has one: %v)", wantParent != nil, p.Parent != nil)
	}
	got := p.ComputedProperty()
	if got == nil {
		return fmt.Errorf("ComputedProperty is nil")
	}
	want := ast.ClassProperty{}
	for i := len(chain) - 1; i >= 0; i-- {
		q, qm := prop(chain[i]), c.member(chain[i]).Prop
		if qm.Typed {
			want.Interface = q.Interface
		}
		if qm.Index {
			want.Index = q.Index
		}
		if qm.Read != "" {
			want.Read = q.Read
		}
		if qm.Write != "" {
			want.Write = q.Write
		}
		if qm.Stored != "" {
			want.Stored = q.Stored
		}
		if qm.Default != "" {
			want.Default = q.Default
		}
		if qm.Impl {
			want.Implements = q.Implements
		}
	}
	for _, x := range []struct {
		what string
		ok   bool
	}{{"type", got.Interface == want.Interface}, {"index", got.Index == want.Index}, {"read", got.Read == want.Read}, {"write", got.Write == want.Write},
		{"stored", got.Stored == want.Stored}, {"default", got.Default == want.Default}, {"implements", got.Implements == want.Implements}} {
		if !x.ok {
			return fmt.Errorf("the %s of ComputedProperty is wrong", x.what)
		}
	}
	if got.Ident == nil || !strings.EqualFold(got.Ident.Name, m.Name) {
		return fmt.Errorf("the name of ComputedProperty is wrong")
	}
	// It is a copy: the declared properties stay as they are.
	q := m.Prop
	if (p.Interface != nil) != q.Typed || (p.Index != nil) != q.Index || (p.Read != nil) != (q.Read != "") || (p.Write != nil) != (q.Write != "") ||
		(p.Stored != nil) != (q.Stored != "") || (p.Default != nil) != (q.Default != "") || (p.Implements != nil) != q.Impl {
		return fmt.Errorf("the declared specifiers are not those of the source")
	}
	return nil
}

func (c *hierCase) depth() int {
	d := 0
	for i := range c.Classes {
		n := 0
		for k := i; k >= 0; k = c.Classes[k].Parent {
			n++
		}
		if n > d {
			d = n
		}
	}
	return d
}

func (c *hierCase) redeclared() bool {
	for i := range c.Classes {
		for _, n := range hierNames {
			k := 0
			for j := i; j >= 0; j = c.Classes[j].Parent {
				for _, s := range c.Classes[j].Sections {
					for _, m := range s.Members {
						if strings.EqualFold(m.Name, n) {
							k++
						}
					}
				}
			}
			if k > 1 {
				return true
			}
		}
	}
	return false
}

func hierClasses(c *hierCase) []string {
	r := []string{fmt.Sprintf("depth %d", c.depth())}
	flags := map[string]bool{}
	for _, cl := range c.Classes {
		if cl.Alias > 0 {
			flags["alias"] = true
		}
		if cl.Late {
			flags["late parent"] = true
		}
		if cl.Forward {
			flags["forward"] = true
		}
		if cl.Parent == -2 {
			flags["unknown parent"] = true
		}
		if cl.Extra >= 0 {
			flags["second heritage"] = true
		}
		for _, s := range cl.Sections {
			for _, m := range s.Members {
				if m.Prop != nil && !m.Prop.Typed {
					flags["untyped property"] = true
				}
			}
		}
	}
	for k := range flags {
		r = append(r, k)
	}
	return r
}

func init() {
	properties = append(properties,
		&Property{ID: "P09", Facets: []Facet{
			facet("hierarchy", "hierarchies of up to 6 classes, now and then up to 46 (aliases, short classes, forward declarations, unknown and late parents, several heritage names) with members of all kinds and visibilities drawn from 6 names, now and then with dozens of others; every name is looked up in every class; non-trivial: at least 3 levels and a name declared at two of them", 150000, 3000000,
				genHier, checkHier, func(c *hierCase) bool { return c.depth() >= 3 && c.redeclared() }, hierClasses),
		}},
	)
}
