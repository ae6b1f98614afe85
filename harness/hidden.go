package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P15: names qualified by a unit which the interface of that unit doesn't
// declare: those of its implementation, of its types and routines, of units it
// uses, the built-in ones, and those which are nowhere.

type hiddenCase struct {
	Files []projFile `json:"files"`
	Place int        `json:"place"` // the file with the probe
	Type  bool       `json:"type"`  // the probe is a type TProbe_ instead of an expression
	Probe string     `json:"probe"`
	Found bool       `json:"found"`
	Class string     `json:"class"`
}

var hiddenNames = strings.Fields("alpha beta gamma TOne TTwo elem field param")

// decls draws declarations and gives their text and the names they declare.
func hiddenDecls(t *rapid.T, intf bool, taken map[string]bool) (string, map[string]bool) {
	var b strings.Builder
	own := map[string]bool{}
	n := uniform(t, 4)
	for i := 0; i < n; i++ {
		name := pick(t, "name", hiddenNames)
		if taken[name] || own[name] {
			continue
		}
		isType := strings.HasPrefix(name, "T")
		// Names of the parts, which aren't declarations of the unit.
		part := pick(t, "part", []string{"field", "param", "alpha", "beta", "TOne", "x"})
		switch k := uniform(t, 3); {
		case isType && k == 0:
			fmt.Fprintf(&b, "type %s = record %s: Integer; end; ", name, part)
		case isType && k == 1:
			fmt.Fprintf(&b, "type %s = class %s: Integer; end; ", name, part)
		case isType && k == 2 && !taken["elem"] && !own["elem"]:
			fmt.Fprintf(&b, "type %s = (elem); ", name)
			own["elem"] = true
		case isType:
			fmt.Fprintf(&b, "type %s = function(%s: Integer): Integer; ", name, part)
		case k == 0:
			fmt.Fprintf(&b, "var %s: Integer; ", name)
		case k == 1:
			fmt.Fprintf(&b, "const %s = 1; ", name)
		default:
			if part == name {
				part = "x"
			}
			fmt.Fprintf(&b, "procedure %s(%s: Integer); ", name, part)
			if !intf {
				loc := pick(t, "local", []string{"beta", "gamma", "TTwo"})
				switch {
				case loc == part || loc == name:
				case loc[0] == 'T':
					fmt.Fprintf(&b, "type %s = Integer; ", loc)
				default:
					fmt.Fprintf(&b, "var %s: Integer; ", loc)
				}
				b.WriteString("begin end; ")
			}
		}
		own[name] = true
	}
	return b.String(), own
}

var hiddenStmts = []string{"x_ := %s", "%s", "%s := 1", "if %s then", "x_(1, %s)", "x_ := -%s * 2 + x_", "x_ := [1, 3..%s]", "x_ := @%s", "%s(1)",
	"x_ := %s(1)", "%s.a := 1", "%s[1] := 2", "x_ := %s^", "with %s do", "repeat until %s", "while %s do x_", "case %s of 1: end", "case x_ of %s: end",
	"for x_ := 1 to %s do", "raise %s", "try finally %s end", "x_[%s] := 1", "x_ := not %s", "x_ := ((%s))", "x_ := %s.b(1)"}

func genHidden(t *rapid.T) hiddenCase {
	n := 1 + uniform(t, 2)
	names := []string{"UnitA", "UnitB", "UnitC"}[:n]
	type unit struct {
		intf, impl         string
		intfD, implD       map[string]bool
		usesIntf, usesImpl []int
	}
	us := make([]unit, n)
	for i := range us {
		u := &us[i]
		u.intf, u.intfD = hiddenDecls(t, true, nil)
		u.impl, u.implD = hiddenDecls(t, false, u.intfD)
		for j := range us {
			if j < i && uniform(t, 1) == 0 {
				u.usesIntf = append(u.usesIntf, j)
			} else if j != i && uniform(t, 1) == 0 {
				u.usesImpl = append(u.usesImpl, j)
			}
		}
	}
	main, mainD := hiddenDecls(t, false, nil)

	c := hiddenCase{Place: uniform(t, n)}
	// The namespaces which can be named at the probe.
	inIntf := false
	var cand []int // of units; n is the program
	if c.Place == 0 {
		for j := range us {
			cand = append(cand, j)
		}
		cand = append(cand, n)
	} else {
		u := us[c.Place-1]
		inIntf = uniform(t, 2) == 0
		cand = append(cand, u.usesIntf...)
		if !inIntf {
			cand = append(cand, u.usesImpl...)
		}
		if len(cand) == 0 {
			c.Place, inIntf = 0, false
			cand = []int{0}
		}
	}
	k := cand[uniform(t, len(cand)-1)]
	space, declared := "Main1", mainD
	if k < n {
		space, declared = names[k], us[k].intfD
	}
	name := pick(t, "probed", append([]string{"Integer", "Missing", "UnitB", "x", "Main1"}, hiddenNames...))
	if uniform(t, 1) == 0 && k < n && len(us[k].implD) > 0 {
		var impl []string
		for _, s := range hiddenNames {
			if us[k].implD[s] {
				impl = append(impl, s)
			}
		}
		name = pick(t, "impl", impl)
	}
	if uniform(t, 3) == 0 {
		for _, s := range hiddenNames {
			if declared[s] {
				name = s
			}
		}
	}
	c.Found = declared[name]
	if k == n && name == "Main1" {
		name = "Missing" // whether a program has its own name isn't claimed
	}
	switch {
	case c.Found:
		c.Class = "declared"
	case k < n && us[k].implD[name]:
		c.Class = "of the implementation"
	default:
		c.Class = "of something else"
	}
	c.Probe = caseVariant(space, uniform(t, 2)) + "." + caseVariant(name, uniform(t, 2))
	c.Type = uniform(t, 3) == 0 && (!c.Found || name[0] == 'T')
	probe := ""
	stmt := "begin " + strings.ReplaceAll(pick(t, "stmt", hiddenStmts), "%s", c.Probe) + " end"
	switch {
	case c.Type:
		probe = "type TProbe_ = " + c.Probe + "; "
		stmt = "begin end"
	case inIntf || uniform(t, 3) == 0:
		probe = pick(t, "decl", []string{"const probe_ = %s; ", "const probe_ = 1 + %s; ", "var probe_: Integer = %s; ", "type TProbe_ = 1..%s; ", "type TProbe_ = (el_ = %s); ", "var probe_: string[%s]; "})
		probe = strings.ReplaceAll(probe, "%s", c.Probe)
		stmt = "begin end"
	case c.Place > 0 || uniform(t, 1) == 0:
		probe = "procedure probe_; " + stmt + "; "
		stmt = "begin end"
	}

	order := rapid.Permutation(names).Draw(t, "order")
	text := "program Main1; uses "
	for i, s := range order {
		if i > 0 {
			text += ", "
		}
		text += s + " in '" + s + ".pas'"
	}
	text += "; " + main
	if c.Place == 0 {
		text += probe + stmt + "."
	} else {
		text += "begin end."
	}
	c.Files = append(c.Files, projFile{Path: progPath, Text: text})
	uses := func(s []int) string {
		if len(s) == 0 {
			return ""
		}
		return "uses " + strings.Join(namesOf(s, names), ", ") + "; "
	}
	for i, u := range us {
		text := "unit " + names[i] + "; interface " + uses(u.usesIntf) + u.intf
		if c.Place == i+1 && inIntf {
			text += probe
		}
		text += "implementation " + uses(u.usesImpl) + u.impl
		if c.Place == i+1 && !inIntf {
			text += probe
		}
		c.Files = append(c.Files, projFile{Path: names[i] + ".pas", Unit: names[i], Text: text + "end."})
	}
	return c
}

func checkHidden(c *hiddenCase) error {
	f := c.Files[c.Place]
	return withProject(c.Files, func() error {
		prog, err := parser.ParseProgram(progPath)
		if err != nil {
			if c.Found || c.Type {
				return fmt.Errorf("%s is rejected: %v\n%s", c.Probe, err, f.Text)
			}
			if m := errPlace.FindStringSubmatch(err.Error()); m == nil || filepath.Base(m[1]) != filepath.Base(f.Path) {
				return fmt.Errorf("%s in %s is no error of that file: %v", c.Probe, f.Path, err)
			}
			return nil
		}
		if !c.Type {
			if !c.Found {
				return fmt.Errorf("%s is accepted in %s, but the unit doesn't declare it in its interface\n%s", c.Probe, f.Path, f.Text)
			}
			return nil
		}
		id := probeType(prog, f.Unit)
		switch {
		case id == nil:
			return fmt.Errorf("there is no type TProbe_ in %s\n%s", f.Path, f.Text)
		case c.Found != (id.Ref != nil):
			return fmt.Errorf("the reference of %s in %s is %v, expected one: %v\n%s", c.Probe, f.Path, id.Ref, c.Found, f.Text)
		}
		return nil
	})
}

// probeType finds what TProbe_ is declared as in the program or in a unit.
func probeType(prog *parser.Program, unit string) *ast.TypeId {
	var r *ast.TypeId
	look := func(s any) {
		sec, _ := s.(ast.TypeSection)
		for _, d := range sec {
			if d.Ident.Name == "TProbe_" {
				r, _ = d.Type.(*ast.TypeId)
			}
		}
	}
	if unit == "" {
		for _, s := range prog.ProgramBlock.Block.DeclSections {
			look(s)
		}
		return r
	}
	for _, u := range prog.Units {
		if u.Ident.Name == unit {
			for _, s := range u.InterfaceSection.InterfaceDecls {
				look(s)
			}
			for _, s := range u.ImplementationSection.DeclSections {
				look(s)
			}
		}
	}
	return r
}
