package main

import "strings"

func exprProfile() profile {
	return profile{fuel: 120, units: 2, setup: func(g *G) {
		g.opts.decls, g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel, g.opts.classes = "ctvc", 3, 6, 80, false
	}}
}

func stmtProfile() profile {
	return profile{fuel: 30, units: 2, setup: func(g *G) {
		g.opts.decls, g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel = "ctvlll", 4, 2, 160
		g.opts.exports = false
	}}
}

func typeProfile() profile {
	return profile{fuel: 120, units: 4, setup: func(g *G) {
		g.opts.decls, g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel = "ttttcvwr", 4, 3, 6
		g.opts.classes, g.opts.exports = false, false
	}}
}

func classProfile() profile {
	return profile{fuel: 150, units: 5, setup: func(g *G) {
		g.opts.decls, g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel, g.opts.classBias = "ttttc", 3, 2, 4, 8
		g.opts.exports = false
	}}
}

func fileProfile() profile {
	return profile{fuel: 100, units: 5, setup: func(g *G) {
		g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel = 5, 2, 12
		g.opts.decls = "cvtrrrrlwr"
	}}
}

func mixedProfile() profile {
	return profile{fuel: 120, units: 4, setup: func(g *G) {
		g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel = 5, 4, 40
	}}
}

func refsProfile() profile {
	return profile{fuel: 150, units: 4, setup: func(g *G) {
		g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel = 6, 3, 30
		g.opts.decls = "cvttrrrcvlw"
	}}
}

// projectFacet checks the trees of the program and of the units of projects.
func projectFacet(p profile, quick, thorough int) Facet {
	return facet("project", "programs with one to three units; non-trivial: a name qualified by a unit", quick, thorough,
		genProject(modePlain, 1, 3, p.setup), checkProject, func(c *projCase) bool {
			for _, f := range c.Feats {
				if f == "qualified" || f == "unittype" {
					return true
				}
			}
			return false
		}, projClasses)
}

func init() {
	properties = append(properties,
		&Property{ID: "P05", Facets: []Facet{
			facet("tree", "programs and units with expressions; non-trivial: at least 3 of the kinds operator, call, cast, set, index, ...", 90000, 1500000,
				genSrc(modePlain, exprProfile()), checkSrc, hasFeats(3, "relop", "addop", "mulop", "unary", "not", "call", "cast", "set", "items", "address", "qualified"), srcClasses),
			entryFacet("P05", exprProfile(), 30000, 500000),
			projectFacet(exprProfile(), 5000, 100000),
		}},
		&Property{ID: "P06", Facets: []Facet{
			facet("tree", "programs and units with statements; non-trivial: at least 3 kinds of structured statement", 110000, 1500000,
				genSrc(modePlain, stmtProfile()), checkSrc, hasFeats(3, "compound", "if", "ifelse", "while", "repeat", "for", "with", "case", "finally", "except", "labelled", "goto", "asm", "raise", "handler"), srcClasses),
			entryFacet("P06", stmtProfile(), 30000, 500000),
		}},
		&Property{ID: "P07", Facets: []Facet{
			facet("tree", "programs and units with types; non-trivial: at least 3 kinds of type", 100000, 1500000,
				genSrc(modePlain, typeProfile()), checkSrc, hasFeats(3, "enum", "subrange", "array", "set of", "file of", "record", "fixedstring", "pointer", "proctype", "variant", "packed", "portability", "usertype", "unittype"), srcClasses),
			entryFacet("P07", typeProfile(), 30000, 500000),
			projectFacet(typeProfile(), 5000, 100000),
		}},
		&Property{ID: "P08", Facets: []Facet{
			facet("tree", "programs and units with classes; non-trivial: a class with at least 2 kinds of member", 60000, 1500000,
				genSrc(modePlain, classProfile()), checkSrc, hasFeats(2, "classfield", "method", "property", "constructor", "destructor", "classmethod", "forwardclass", "classof"), srcClasses),
			projectFacet(classProfile(), 5000, 100000),
		}},
		&Property{ID: "P10", Facets: []Facet{
			facet("tree", "programs and units with all kinds of sections; non-trivial: at least 4 kinds of section, heading, directive", 90000, 1500000,
				genSrc(modePlain, fileProfile()), checkSrc, hasFeats(4, "const", "var", "threadvar", "type", "label", "routine", "heading", "forward", "external", "directive", "exports", "uses", "initialization", "finalization", "portability", "progparams"), srcClasses),
			entryFacet("P10", fileProfile(), 30000, 500000),
			projectFacet(fileProfile(), 5000, 100000),
		}},
		&Property{ID: "P13", Facets: []Facet{
			facet("refs", "programs and units; non-trivial: at least 3 kinds of declaration and statements or expressions which use names", 70000, 1500000,
				genSrc(modeRefs, refsProfile()), checkSrc, hasFeats(3, "const", "var", "threadvar", "type", "label", "routine", "heading", "param", "enum", "handler", "property", "deferred", "forwardclass"), srcClasses),
		}},
		&Property{ID: "P02", Facets: append([]Facet{
			facet("tokens", lexRule+"; at least two lines", 300000, 8000000, genLexCase, checkTokenPositions,
				func(c *lexCase) bool { return lexNontrivial(c) && strings.Contains(c.Text, "\n") }, lexClasses),
			facet("idents", "programs and units in a generated layout (line ends, tabs, multi-line comments, wide characters); non-trivial: more than 20 tokens on at least 3 lines", 30000, 1500000,
				genSrc(modeLoc, mixedProfile()), checkSrc, func(c *srcCase) bool { return c.Toks > 20 && strings.Count(c.Text, "\n") > 1 }, srcClasses),
			facet("project", "the same in the files of a project, in Shift-JIS; non-trivial: at least two units", 4000, 200000,
				genProject(modeLoc, 1, 4, nil), checkProject, func(c *projCase) bool { return len(c.Files) > 2 }, projClasses),
		}, lexFacets(checkTokenPositions)...), Findings: map[string]func() bool{"leading-lf": leadingLF}},
	)
}
