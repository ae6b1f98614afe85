package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P04, knots: types which refer to one another and to themselves in any way

var knotNames = []string{"TA", "TB", "TC", "TD", "TE"}

func genKnot(t *rapid.T) totalCase {
	c := totalCase{Kind: "program", Class: "knot"}
	n := 1 + uniform(t, 4)
	name := func() string { return pick(t, "spelling", spellings(knotNames[uniform(t, n-1)])) }
	ord := func() string { return pick(t, "ordinal", []string{name(), name(), "1 .. 3", "( e1 , e2 )", "Byte"}) }
	var typ func(depth int) string
	typ = func(depth int) string {
		if depth > 2 {
			return name()
		}
		switch uniform(t, 13) {
		case 0, 1, 2:
			return name()
		case 3:
			return "^ " + name()
		case 4:
			return "array [ " + ord() + " ] of " + typ(depth+1)
		case 5:
			return "array of " + typ(depth+1)
		case 6:
			return "set of " + ord()
		case 7:
			return "record f : " + typ(depth+1) + " ; case " + pick(t, "tag", []string{"", "tag : "}) + name() + " of 1 : ( g : " + name() + " ) end"
		case 8:
			return "procedure ( a : " + name() + " )"
		case 9:
			return "function ( a : " + name() + " ) : " + name()
		case 10:
			return name() + " .. " + name()
		case 11:
			return "file of " + name()
		case 12:
			return "packed array [ " + ord() + " , " + ord() + " ] of " + name()
		default:
			return "string [ " + pick(t, "length", []string{"5", name()}) + " ]"
		}
	}
	class := func() string {
		var sb strings.Builder
		sb.WriteString("class ")
		if uniform(t, 3) > 0 {
			sb.WriteString("( " + name())
			if uniform(t, 3) == 0 {
				sb.WriteString(" , " + name())
			}
			sb.WriteString(" ) ")
		}
		for s := uniform(t, 2); s > 0; s-- {
			sb.WriteString(pick(t, "visibility", []string{"public ", "private ", "protected "}))
			if uniform(t, 2) == 0 {
				sb.WriteString("fA : " + typ(1) + " ; ")
			}
			if uniform(t, 2) == 0 {
				sb.WriteString("function GetA ( x : " + name() + " ) : " + name() + " ; virtual ; ")
			}
			for p := uniform(t, 2); p > 0; p-- {
				sb.WriteString("property " + pick(t, "property", []string{"PA", "PB", "fA"}) + " ")
				if uniform(t, 2) == 0 {
					sb.WriteString(": " + name() + " ")
				}
				if uniform(t, 2) == 0 {
					sb.WriteString("read " + pick(t, "accessor", []string{"fA", "GetA", "PA"}) + " ")
				}
				sb.WriteString("; ")
			}
		}
		sb.WriteString("end")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteString("type ")
	classy := make([]int, n)
	for i := range classy {
		classy[i] = uniform(t, 3)
		if classy[i] == 0 {
			fmt.Fprintf(&sb, "%s = class ; ", knotNames[i])
		}
	}
	for i := 0; i < n; i++ {
		s := ""
		switch classy[i] {
		case 0, 1:
			s = class()
		case 2:
			s = typ(0)
		default:
			s = pick(t, "other", []string{name(), "class of " + name(), "type " + name()})
		}
		fmt.Fprintf(&sb, "%s = %s ; ", knotNames[i], s)
	}
	decls := sb.String()
	sb.Reset()
	fmt.Fprintf(&sb, "var v : %s ; w : array [ %s ] of %s ; begin v := %s ( w ) ; w := %s ( %s ( v ) ) ; try except on E : %s do v ; end end .", name(), ord(), typ(1), name(), name(), name(), name())
	if uniform(t, 2) == 0 {
		c.Kind = "unit"
		c.Text = "unit U ; interface " + decls + " implementation procedure Q ; " + sb.String()
		c.Text = strings.TrimSuffix(c.Text, ".") + "; end ."
	} else {
		c.Text = "program P ; " + decls + sb.String()
	}
	return c
}

// checkKnot parses, and asks every type of the result all there is to ask.
func checkKnot(c *totalCase) error {
	if err := checkTotal(c); err != nil {
		return err
	}
	root, err := parseText(c.Kind, c.Text)
	if err != nil {
		return nil
	}
	return useTypes(root)
}

func useTypes(root any) error {
	node, ok := root.(astcore.Node)
	if !ok {
		return nil
	}
	return astcore.WalkDown(node, func(n astcore.Node) error {
		if typ, ok := n.(ast.Type); ok {
			_ = kindOf(typ)
		}
		class, ok := n.(*ast.CustomClassType)
		if !ok {
			return nil
		}
		_ = class.GetParentClass()
		for _, m := range []string{"fA", "GetA", "PA", "PB", "nothing"} {
			for _, b := range []bool{false, true} {
				_ = class.FindMemberDecl(m, b)
				_ = class.FindProperty(m, b)
			}
		}
		return nil
	})
}

func knotNontrivial(c *totalCase) bool {
	_, err := parseText(c.Kind, c.Text)
	return err == nil
}
