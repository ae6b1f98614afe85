package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
	"pgregory.net/rapid"
)

// The parsers of single constructs: after some declarations, one construct and a
// token which can't belong to it. The parser of the construct has to give its tree
// and to stop before that token.

type entryCase struct {
	Entry  string         `json:"entry"`
	Pick   map[string]int `json:"pick"` // its place in the list of the property
	Text   string         `json:"text"`
	Want   string         `json:"want"`
	Follow string         `json:"follow"`
	At     int            `json:"at"` // of the follow token
	Feats  []string       `json:"feats,omitempty"`
}

type entryPoint struct {
	name   string // of the method, which is looked up when the check runs
	args   []any
	gen    func(g *G) string
	follow []string
}

// callParser calls the method; ok: there is such a method.
func callParser(p *parser.Parser, name string, args ...any) (v any, err error, ok bool) {
	m := reflect.ValueOf(p).MethodByName(name)
	if !m.IsValid() || m.Type().NumIn() != len(args) || m.Type().NumOut() < 2 {
		return nil, nil, false
	}
	in := []reflect.Value{}
	for i, a := range args {
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(m.Type().In(i)) {
			return nil, nil, false
		}
		in = append(in, v)
	}
	out := m.Call(in)
	e, isErr := out[len(out)-1].Interface().(error)
	if !isErr && !out[len(out)-1].IsNil() {
		return nil, nil, false
	}
	return out[0].Interface(), e, true
}

func (e *entryPoint) run(p *parser.Parser) (any, error) {
	v, err, _ := callParser(p, e.name, e.args...)
	return v, err
}

func (d *dumper) any(v any) string {
	switch v := v.(type) {
	case *ast.Expression:
		return d.expr(v)
	case *ast.SimpleExpression:
		return d.simple(v)
	case *ast.Term:
		return d.term(v)
	case ast.Factor:
		return d.factor(v)
	case *ast.Designator:
		return d.designator(v)
	case *ast.QualId:
		return d.qualId(v)
	case *ast.Statement:
		return d.stmt(v)
	case ast.StmtList:
		return d.stmts(v)
	case ast.FormalParameters:
		return d.params(v)
	case *ast.Block:
		return d.block(v)
	case ast.DeclSections:
		return d.decls(v)
	case ast.ConstSection, ast.VarSection, ast.ThreadVarSection, ast.TypeSection, *ast.LabelDeclSection, *ast.FunctionDecl, *ast.ExportedHeading:
		return d.decl(v)
	case ast.StatementBody:
		return d.stmtBody(v)
	}
	return d.typ(v)
}

var exprFollow = []string{";", ")", "]", ",", "then", "do", "of", "to", "downto", "else", "end", "until", ":", "..", ":="}
var stmtFollow = []string{";", "end", "else", "until", "except", "finally"}
var typeFollow = []string{";", ")", "end"}
var sectionFollow = []string{"begin", "implementation", "initialization", "end"}

var entries = map[string][]entryPoint{
	"P05": {
		{"ParseExpression", nil, func(g *G) string { return g.exprD(0) }, exprFollow},
		{"ParseConstExpr", nil, func(g *G) string { return g.exprD(0) }, exprFollow},
		{"ParseSimpleExpression", nil, func(g *G) string { return g.simple(0) }, append([]string{"=", "<", ">=", "in", "<>"}, exprFollow...)},
		{"ParseTerm", nil, func(g *G) string { return g.term(0, true) }, append([]string{"=", "+", "or", "xor", "<>"}, exprFollow...)},
		{"ParseFactor", nil, func(g *G) string { return g.factor(0, true) }, append([]string{"*", "div", "mod", "and", "shl", "shr", "as", "is"}, exprFollow...)},
		{"ParseSetConstructor", nil, func(g *G) string { return g.setConstructor(0) }, append([]string{"*", "+", "="}, exprFollow...)},
		{"ParseDesignator", nil, func(g *G) string { return g.designator(0) }, append([]string{"*", "+", "="}, exprFollow...)},
		{"ParseQualId", nil, func(g *G) string { q, _ := g.qualId(); return q }, append([]string{"*", "+", "=", "[", "^"}, exprFollow...)},
	},
	"P06": {
		{"ParseStatement", nil, func(g *G) string { return g.stmt(0, true) }, stmtFollow},
		{"ParseStmtList", []any{token.ReservedWord.HasKeyword("END")}, func(g *G) string { return g.stmts(0) }, []string{"end"}},
		{"ParseCompoundStmt", []any{true}, func(g *G) string { return g.onlyStmt(7) }, append([]string{"."}, stmtFollow...)},
		{"ParseCompoundStmt", []any{false}, func(g *G) string { return g.onlyStmt(7) }, append([]string{"."}, stmtFollow...)},
	},
	"P07": {
		{"ParseType", nil, func(g *G) string { s, _ := g.typ(typeOpts{}, 0); return s }, typeFollow},
		{"ParseTypeId", nil, func(g *G) string { return g.typeRef() }, append([]string{"="}, typeFollow...)},
		{"ParseStrucType", nil, func(g *G) string { return g.onlyType(6 + g.n("which", 5)) }, typeFollow},
		{"ParseFormalParameters", []any{'(', ')'}, func(g *G) string { return g.params("(", ")", 0) }, []string{";", ":"}},
	},
	"P10": {
		{"ParseConstSection", []any{true}, (*G).constSection, sectionFollow},
		{"ParseVarSection", []any{true}, (*G).varSection, sectionFollow},
		{"ParseThreadVarSection", []any{true}, (*G).threadVarSection, sectionFollow},
		{"ParseTypeSection", []any{true}, (*G).typeSection, sectionFollow},
		{"ParseProcedureDeclSection", nil, func(g *G) string { return g.routine(0, false) }, sectionFollow},
		{"ParseExportedHeading", nil, func(g *G) string { return g.routine(0, true) }, sectionFollow},
		{"ParseDeclSections", nil, func(g *G) string { return g.declSections(0) }, []string{"begin", "initialization", "end"}},
		{"ParseBlock", nil, func(g *G) string { return g.block(0, true) }, []string{".", ";"}},
	},
}

// onlyStmt emits a statement of one kind.
func (g *G) onlyStmt(k int) string {
	g.force = k + 1
	if g.fuel < 10 {
		g.fuel = 10
	}
	return g.stmtBody(0, false)
}

// onlyType emits a type of one kind.
func (g *G) onlyType(k int) string {
	g.forceType = k + 1
	if g.fuel < 10 {
		g.fuel = 10
	}
	s, _ := g.typ(typeOpts{}, 0)
	return s
}

func genEntry(prop string, p profile) func(t *rapid.T) entryCase {
	list := entries[prop]
	return func(t *rapid.T) entryCase {
		g := newG(t, 4+uniform(t, p.fuel))
		if p.setup != nil {
			p.setup(g)
		}
		g.opts.exports = false // the EXPORTS would belong to the block before
		k := uniform(t, len(list)-1)
		e := list[k]
		g.openFile(progPath)
		g.scope = &gscope{maps: []*gmap{newGmap(), builtinMap}}
		f := g.fuel
		if g.fuel > 16 {
			g.fuel = 16
		}
		g.declSections(0)
		g.must("begin")
		g.must("end")
		g.feats = map[string]int{}
		g.fuel = f
		want := e.gen(g)
		c := entryCase{Entry: e.name, Pick: map[string]int{prop: k}, Follow: e.follow[uniform(t, len(e.follow)-1)]}
		var at int
		if c.Follow[0] >= 'a' {
			at = g.kw(c.Follow)
		} else {
			at = g.p(c.Follow)
		}
		r := []rendered{render(g.cur.toks, drawLayout(t), false)}
		c.Text, c.Want, c.At = r[0].text, g.expand(want, r, modePlain), r[0].pos[at].idx
		c.Feats = g.featList()
		return c
	}
}

func checkEntry(c *entryCase) error {
	rs := []rune(c.Text)
	p := parser.NewParser(parser.NewProgramContext(progPath))
	p.SetText(&rs)
	p.NextToken()
	if _, err := p.ParseBlock(); err != nil {
		return fmt.Errorf("correct declarations are rejected: %v", err)
	}
	var args []any
	for prop, i := range c.Pick {
		args = entries[prop][i].args
	}
	v, err, ok := callParser(p, c.Entry, args...)
	if !ok {
		return nil // no such parser any more
	}
	if err != nil {
		return fmt.Errorf("%s rejects a correct text: %v", c.Entry, err)
	}
	if err := diffErr("the tree of "+c.Entry, (&dumper{mode: modePlain}).any(v), c.Want); err != nil {
		return err
	}
	// The current token is the last one of the construct, or the first one after it.
	t := p.CurrentToken()
	if t != nil && t.Start != nil && t.Start.Index < c.At {
		t = p.NextToken()
	}
	if t == nil || t.Start == nil || t.Start.Index != c.At || !strings.EqualFold(t.RawString(), c.Follow) {
		return fmt.Errorf("after %s the current token is %v, not the %q at %d", c.Entry, t, c.Follow, c.At)
	}
	return nil
}

func entryFacet(prop string, p profile, quick, thorough int) Facet {
	return facet("entry", "the parsers of single constructs, after declarations; non-trivial: at least 2 kinds of construct in it", quick, thorough,
		genEntry(prop, p), checkEntry, func(c *entryCase) bool { return len(c.Feats) >= 2 },
		func(c *entryCase) []string { return append([]string{c.Entry}, c.Feats...) })
}
