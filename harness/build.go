package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/runes"
	"github.com/akm/tparser/token"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P22: trees built with constructors, and what nodes say about themselves
// P17 (facet built): walking trees which no source has

// choices is a source of decisions: the drawn ones, then zeros.
type choices struct {
	c []int
	i int
}

func (c *choices) n(max int) int { // 0..max
	if c.i >= len(c.c) {
		return 0
	}
	v := c.c[c.i]
	c.i++
	return v % (max + 1)
}

func genChoices(t *rapid.T, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = uniform(t, 59)
	}
	return r
}

// ---- rebuilding a parsed tree with the constructors

type rebuilder struct {
	ch   *choices
	toks map[int]*token.Token // by the index of the start
	errs []error
	used map[string]int
}

func (b *rebuilder) fail(f string, a ...any) { b.errs = append(b.errs, fmt.Errorf(f, a...)) }
func (b *rebuilder) use(s string)            { b.used[s]++ }

func (b *rebuilder) tok(id *ast.Ident) *token.Token {
	if id == nil || id.Location == nil || id.Location.Start == nil {
		return nil
	}
	t := b.toks[id.Location.Start.Index]
	if t == nil || t.RawString() != id.Name {
		return nil
	}
	return t
}

func (b *rebuilder) ident(id *ast.Ident) *ast.Ident {
	if id == nil {
		return nil
	}
	t := b.tok(id)
	k := b.ch.n(5)
	if t == nil && k > 1 {
		k = 0
	}
	switch k {
	case 0:
		r := ast.NewIdentFrom(id)
		if r != id {
			b.fail("NewIdentFrom of an identifier gives another one")
		}
		return r
	case 1:
		b.use("ident by value")
		return ast.NewIdentFrom(*id)
	case 2:
		b.use("ident by token")
		return ast.NewIdentFrom(*t)
	case 3:
		b.use("ident by token")
		return ast.NewIdentFrom(t)
	case 4:
		return ast.NewLabelId(astcore.NewIdent(t))
	}
	return astcore.NewIdent(t)
}

// identArg is an argument that stands for an identifier.
func (b *rebuilder) identArg(id *ast.Ident, ptrOnly bool) any {
	t := b.tok(id)
	k := b.ch.n(3)
	if t == nil && k > 1 {
		k = 0
	}
	if ptrOnly && (k == 1 || k == 3) {
		k--
	}
	switch k {
	case 1:
		return *b.ident(id)
	case 2:
		return t
	case 3:
		return *t
	}
	return b.ident(id)
}

func (b *rebuilder) identList(l ast.IdentList) any {
	var r ast.IdentList
	var any1 []any
	for _, i := range l {
		r = append(r, b.ident(i))
		any1 = append(any1, b.identArg(i, false))
	}
	if len(l) == 1 && b.ch.n(2) == 0 {
		b.use("list of one")
		if b.ch.n(1) == 0 {
			return r[0]
		}
		return *r[0]
	}
	switch b.ch.n(2) {
	case 1:
		b.use("list of pointers")
		return []*ast.Ident(r)
	case 2:
		b.use("list of anything")
		return any1
	}
	return r
}

func (b *rebuilder) newIdentList(l ast.IdentList) ast.IdentList {
	if len(l) == 0 {
		return l
	}
	if len(l) > 1 && b.ch.n(1) == 0 {
		var args []any
		for _, i := range l {
			args = append(args, b.identArg(i, false))
		}
		return astcore.NewIdentList(args...)
	}
	return astcore.NewIdentList(b.identList(l))
}

func (b *rebuilder) idref(r *ast.IdentRef) *ast.IdentRef {
	if r == nil {
		return nil
	}
	return ast.NewIdentRef(b.ident(r.Ident), r.Ref)
}

// desArg gives an argument from which NewDesignator makes g without its items.
func (b *rebuilder) desArg(g *ast.Designator) any {
	q := g.QualId
	if q.NamespaceId == nil {
		switch b.ch.n(4) {
		case 1:
			if q.Ident.Ref == nil {
				b.use("designator by identifier")
				return b.identArg(q.Ident.Ident, false)
			}
		case 2:
			return b.idref(q.Ident)
		case 3:
			return *b.idref(q.Ident)
		}
	}
	return ast.NewQualId(b.idref(q.NamespaceId), b.idref(q.Ident))
}

func (b *rebuilder) designator(g *ast.Designator) *ast.Designator {
	if g == nil {
		return nil
	}
	r := ast.NewDesignator(b.desArg(g))
	if ast.NewDesignator(r) != r {
		b.fail("NewDesignator of a designator gives another one")
	}
	for _, it := range g.Items {
		switch it := it.(type) {
		case *ast.DesignatorItemIdent:
			x := ast.NewDesignatorItemIdent(b.identArg(it.Ident, true))
			if ast.NewDesignatorItemIdent(x) != x {
				b.fail("NewDesignatorItemIdent of an item gives another one")
			}
			r.Items = append(r.Items, x)
		case ast.DesignatorItemExprList:
			r.Items = append(r.Items, ast.DesignatorItemExprList(b.exprs(ast.ExprList(it))))
		default:
			r.Items = append(r.Items, it)
		}
	}
	return r
}

func (b *rebuilder) exprs(l ast.ExprList) ast.ExprList {
	if l == nil {
		return nil
	}
	r := ast.ExprList{}
	for _, e := range l {
		r = append(r, b.expr(e))
	}
	return r
}

// factorArg gives an argument from which NewTerm makes the factor.
func (b *rebuilder) factorArg(f ast.Factor) any {
	if d, ok := f.(*ast.DesignatorFactor); ok && d.ExprList == nil {
		if len(d.Designator.Items) == 0 && b.ch.n(2) > 0 {
			return b.desArg(d.Designator)
		}
		if b.ch.n(1) > 0 {
			return b.designator(d.Designator)
		}
	}
	return b.factor(f)
}

func (b *rebuilder) factor(f ast.Factor) ast.Factor {
	switch f := f.(type) {
	case *ast.DesignatorFactor:
		var r *ast.DesignatorFactor
		if len(f.Designator.Items) == 0 && b.ch.n(1) == 0 {
			r = ast.NewDesignatorFactor(b.desArg(f.Designator))
		} else {
			r = ast.NewDesignatorFactor(b.designator(f.Designator))
		}
		r.ExprList = b.exprs(f.ExprList)
		if ast.NewDesignatorFactor(r) != r {
			b.fail("NewDesignatorFactor of a factor gives another one")
		}
		return r
	case *ast.NumberFactor:
		return ast.NewNumber(f.Value)
	case *ast.StringFactor:
		return ast.NewString(f.Value)
	case *ast.ValueFactor:
		return ast.NewValueFactor(f.Value)
	case *ast.Nil:
		return ast.NewNil()
	case *ast.Address:
		return &ast.Address{Designator: b.designator(f.Designator)}
	case *ast.Parentheses:
		return &ast.Parentheses{Expression: b.expr(f.Expression)}
	case *ast.Not:
		return &ast.Not{Factor: b.factor(f.Factor)}
	case *ast.TypeCast:
		return &ast.TypeCast{TypeId: b.typeId(f.TypeId), Expression: b.expr(f.Expression)}
	case *ast.SetConstructor:
		r := &ast.SetConstructor{}
		for _, e := range f.SetElements {
			x := ast.NewSetElement(b.expr(e.Expression))
			if e.SubRangeEnd != nil {
				x.SubRangeEnd = b.expr(e.SubRangeEnd)
			}
			r.SetElements = append(r.SetElements, x)
		}
		return r
	}
	return f
}

func (b *rebuilder) termArg(t *ast.Term) any {
	if t.MulOpFactors == nil && b.ch.n(3) > 0 {
		return b.factorArg(t.Factor)
	}
	return b.term(t)
}

func (b *rebuilder) term(t *ast.Term) *ast.Term {
	r := ast.NewTerm(b.factorArg(t.Factor))
	if ast.NewTerm(r) != r {
		b.fail("NewTerm of a term gives another one")
	}
	for _, m := range t.MulOpFactors {
		r.MulOpFactors = append(r.MulOpFactors, &ast.MulOpFactor{MulOp: m.MulOp, Factor: b.factor(m.Factor)})
	}
	return r
}

func (b *rebuilder) simpleArg(s *ast.SimpleExpression) any {
	if s.UnaryOp == nil && s.AddOpTerms == nil && b.ch.n(3) > 0 {
		return b.termArg(s.Term)
	}
	return b.simple(s)
}

func (b *rebuilder) simple(s *ast.SimpleExpression) *ast.SimpleExpression {
	r := ast.NewSimpleExpression(b.termArg(s.Term))
	if ast.NewSimpleExpression(r) != r {
		b.fail("NewSimpleExpression of a simple expression gives another one")
	}
	r.UnaryOp = s.UnaryOp
	for _, m := range s.AddOpTerms {
		r.AddOpTerms = append(r.AddOpTerms, &ast.AddOpTerm{AddOp: m.AddOp, Term: b.term(m.Term)})
	}
	return r
}

// exprArg gives an argument from which NewExpression makes the expression.
func (b *rebuilder) exprArg(e *ast.Expression) any {
	if e.RelOpSimpleExpressions == nil && b.ch.n(3) > 0 {
		return b.simpleArg(e.SimpleExpression)
	}
	return b.expr(e)
}

func (b *rebuilder) expr(e *ast.Expression) *ast.Expression {
	if e == nil {
		return nil
	}
	b.use("expression")
	f := ast.NewExpression
	if b.ch.n(1) == 1 {
		f = ast.NewConstExpr
	}
	r := f(b.simpleArg(e.SimpleExpression))
	if f(r) != r {
		b.fail("NewExpression of an expression gives another one")
	}
	for _, m := range e.RelOpSimpleExpressions {
		r.RelOpSimpleExpressions = append(r.RelOpSimpleExpressions, &ast.RelOpSimpleExpression{RelOp: m.RelOp, SimpleExpression: b.simple(m.SimpleExpression)})
	}
	return r
}

func (b *rebuilder) typeId(t *ast.TypeId) *ast.TypeId {
	if t == nil {
		return nil
	}
	var args []any
	if t.Ref != nil {
		args = append(args, t.Ref)
	}
	if t.UnitId != nil {
		b.use("type of a unit")
		var u any = b.ident(t.UnitId)
		switch b.ch.n(2) {
		case 1:
			u = ast.NewUnitId(b.identArg(t.UnitId, false))
		case 2:
			u = b.identArg(t.UnitId, false)
		}
		return ast.NewTypeId(u, append([]any{b.identArg(t.Ident, false)}, args...)...)
	}
	if t.Ref != nil && b.ch.n(2) > 0 {
		if d, ok := t.Ref.Node.(*ast.TypeDecl); ok {
			if e, ok := d.Type.(*ast.TypeEmbedded); ok {
				b.use("built-in type")
				id := b.ident(t.Ident)
				switch e.Kind {
				case ast.EtkReal:
					return ast.NewRealType(id)
				case ast.EtkOrdIdent:
					return ast.NewOrdIdent(id)
				case ast.EtkStringType:
					return ast.NewStringType(id)
				case ast.EtkVariantType:
					return ast.NewVariantType(id)
				case ast.EtkPointerType:
					if b.ch.n(1) == 0 {
						return ast.NewEmbeddedPointerType(id)
					}
					return ast.NewPointerType(id)
				}
			}
		}
	}
	return ast.NewTypeId(b.identArg(t.Ident, false), args...)
}

// typeArg gives an argument from which NewParameterType makes the type.
func (b *rebuilder) typeArg(t *ast.ParameterType) any {
	if t == nil {
		return nil
	}
	if t.IsArray {
		b.use("array parameter")
		if isNil(t.Type) {
			return ast.NewArrayParameterType(nil)
		}
		if id, ok := t.Type.(*ast.TypeId); ok && id.UnitId == nil && id.Ref == nil && b.ch.n(1) == 1 {
			return ast.NewArrayParameterType(b.identArg(id.Ident, false))
		}
		return ast.NewArrayParameterType(b.any(t.Type))
	}
	if isNil(t.Type) {
		return ast.NewParameterType(nil)
	}
	typ := b.any(t.Type).(ast.Type)
	switch b.ch.n(4) {
	case 1:
		return typ
	case 2:
		return &ast.ParameterType{Type: typ}
	case 3:
		return ast.ParameterType{Type: typ}
	case 4:
		if id, ok := t.Type.(*ast.TypeId); ok && id.UnitId == nil && id.Ref == nil {
			b.use("parameter type by identifier")
			return b.identArg(id.Ident, false)
		}
	}
	return ast.NewParameterType(typ)
}

func (b *rebuilder) parameter(p *ast.Parameter) *ast.Parameter {
	if p.ConstExpr == nil {
		return ast.NewParameter(b.identList(p.IdentList), b.typeArg(p.Type))
	}
	b.use("default of a parameter")
	var c any
	switch b.ch.n(2) {
	case 0:
		c = b.expr(p.ConstExpr)
	case 1:
		c = *b.expr(p.ConstExpr)
	default:
		c = b.exprArg(p.ConstExpr)
	}
	if b.ch.n(1) == 0 {
		r := ast.NewParameter(b.identList(p.IdentList), b.typeArg(p.Type))
		r.SetConstExpr(c)
		return r
	}
	return ast.NewParameter(b.identList(p.IdentList), b.typeArg(p.Type), c)
}

func (b *rebuilder) formal(p *ast.FormalParm) *ast.FormalParm {
	if p.ConstExpr == nil && b.ch.n(2) > 0 {
		if p.Opt == nil {
			b.use("parameter without option")
			return ast.NewFormalParm(b.identList(p.IdentList), b.typeArg(p.Type))
		}
		b.use("parameter with option")
		var o any = p.Opt
		switch b.ch.n(2) {
		case 1:
			o = *p.Opt
		case 2:
			o = string(*p.Opt)
		}
		return ast.NewFormalParm(b.identList(p.IdentList), b.typeArg(p.Type), o)
	}
	x := b.parameter(p.Parameter)
	var r *ast.FormalParm
	if b.ch.n(1) == 0 {
		r = ast.NewFormalParm(x)
	} else {
		r = ast.NewFormalParm(*x)
	}
	r.Opt = p.Opt
	return r
}

func (b *rebuilder) external(o *ast.ExternalOptions) *ast.ExternalOptions {
	if o == nil || o.Name != nil && o.Index != nil {
		return o
	}
	b.use("external options")
	switch {
	case o.Name != nil && b.ch.n(1) == 0:
		return ast.NewExternalOptions(o.LibraryName, *o.Name)
	case o.Name != nil:
		return ast.NewExternalOptions(o.LibraryName, o.Name)
	case o.Index != nil && b.ch.n(1) == 0:
		return ast.NewExternalOptions(o.LibraryName, *o.Index)
	case o.Index != nil:
		return ast.NewExternalOptions(o.LibraryName, o.Index)
	}
	return ast.NewExternalOptions(o.LibraryName)
}

// any rebuilds a node of any type.
func (b *rebuilder) any(x any) any {
	if isNil(x) {
		return x
	}
	switch v := x.(type) {
	case *ast.Ident:
		return b.ident(v)
	case *ast.IdentRef:
		return b.idref(v)
	case *ast.QualId:
		return ast.NewQualId(b.idref(v.NamespaceId), b.idref(v.Ident))
	case ast.IdentList:
		return b.newIdentList(v)
	case *ast.Designator:
		return b.designator(v)
	case *ast.Expression:
		return b.expr(v)
	case *ast.TypeId:
		return b.typeId(v)
	case *ast.FormalParm:
		return b.formal(v)
	case *ast.ExternalOptions:
		return b.external(v)
	case *ast.CaseLabel:
		if v.ExtraConstExpr == nil {
			return ast.NewCaseLabel(b.expr(v.ConstExpr))
		}
		return ast.NewCaseLabel(b.expr(v.ConstExpr), b.expr(v.ExtraConstExpr))
	case *ast.FixedStringType:
		if id, ok := v.StringType.(*ast.TypeId); ok && id.UnitId == nil {
			b.use("fixed string")
			return ast.NewFixedStringType(b.ident(id.Ident), b.expr(v.Length))
		}
	case *ast.CustomPointerType:
		return ast.NewCustomPointerType(b.typeId(v.TypeId))
	case *ast.CustomClassRefType:
		return ast.NewCustomClassRefType(b.typeId(v.TypeId))
	case *ast.VarDeclAbsoluteIdent:
		b.use("absolute")
		return ast.NewVarDeclAbsoluteIdent(b.identArg((*ast.Ident)(v), false))
	case *ast.UsesClauseItem:
		var name any = b.ident(v.Ident)
		if b.ch.n(1) == 1 {
			name = *b.ident(v.Ident)
		}
		var r *ast.UsesClauseItem
		if v.Path == nil {
			r = ast.NewUnitRef(name)
		} else {
			r = ast.NewUnitRef(name, *v.Path)
		}
		r.Unit = v.Unit
		return r
	}
	return b.copy(reflect.ValueOf(x)).Interface()
}

// copy copies a node without a constructor, with its parts rebuilt.
func (b *rebuilder) copy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Elem().Kind() != reflect.Struct || !strings.Contains(v.Elem().Type().PkgPath(), "/ast") {
			return v
		}
		r := reflect.New(v.Elem().Type())
		t := v.Elem().Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			if skipFields[f.Name] {
				r.Elem().Field(i).Set(v.Elem().Field(i))
				continue
			}
			r.Elem().Field(i).Set(b.field(v.Elem().Field(i)))
		}
		return r
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(b.field(v.Index(i)))
		}
		return r
	}
	return v
}

func (b *rebuilder) field(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr, reflect.Slice:
		if v.IsNil() {
			return v
		}
		return reflect.ValueOf(b.any(v.Interface()))
	}
	return v
}

type buildCase struct {
	Kind    string   `json:"kind"`
	Text    string   `json:"text"`
	Choices []int    `json:"choices"`
	Feats   []string `json:"feats,omitempty"`
}

func genBuild(p profile) func(t *rapid.T) buildCase {
	src := genSrc(modePlain, p)
	return func(t *rapid.T) buildCase {
		s := src(t)
		return buildCase{Kind: s.Kind, Text: s.Text, Feats: s.Feats, Choices: genChoices(t, s.Toks*3)}
	}
}

func tokensByIndex(text string) map[int]*token.Token {
	r := map[int]*token.Token{}
	rs := []rune(text)
	tz := token.NewTokenizer(&rs, 0)
	for n := 0; n <= len(rs)+1; n++ {
		t := tz.GetNext()
		if t == nil || t.Type == token.EOF {
			break
		}
		r[t.Start.Index] = t
	}
	return r
}

func checkBuild(c *buildCase) error {
	root, err := parseText(c.Kind, c.Text)
	if err != nil {
		return fmt.Errorf("a correct %s is rejected: %v", c.Kind, err)
	}
	own := ownership(root)
	dumps := func(x any) string {
		d := &dumper{mode: modeRefs, own: own}
		switch x := x.(type) {
		case *ast.Program:
			return d.program(x) + dumpRoot(x, modeLoc)
		case *ast.Unit:
			return d.unit(x) + dumpRoot(x, modeLoc)
		}
		return ""
	}
	before := dumps(root)
	if err := declaredErr(root); err != nil {
		return err
	}
	b := &rebuilder{ch: &choices{c: c.Choices}, toks: tokensByIndex(c.Text), used: map[string]int{}}
	again := b.copy(reflect.ValueOf(root)).Interface()
	if len(b.errs) > 0 {
		return b.errs[0]
	}
	if err := diffErr("the tree built with the constructors", dumps(again), before); err != nil {
		return err
	}
	if err := diffErr("the parsed tree, after another one was built of its parts,", dumps(root), before); err != nil {
		return err
	}
	return declaredErr(again)
}

// ---- what nodes declare

var declNodeType = reflect.TypeOf((*astcore.DeclNode)(nil)).Elem()

// allNodes calls f for each struct pointer and slice of the tree.
func allNodes(root any, f func(x any) error) error {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value) error
	walk = func(v reflect.Value) error {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				return walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || v.Elem().Kind() != reflect.Struct || seen[v.Pointer()] {
				return nil
			}
			seen[v.Pointer()] = true
			if err := f(v.Interface()); err != nil {
				return err
			}
			t := v.Elem().Type()
			for i := 0; i < t.NumField(); i++ {
				if fl := t.Field(i); fl.PkgPath != "" || skipFields[fl.Name] {
					continue
				}
				if err := walk(v.Elem().Field(i)); err != nil {
					return err
				}
			}
		case reflect.Slice:
			if v.IsNil() {
				return nil
			}
			if err := f(v.Interface()); err != nil {
				return err
			}
			for i := 0; i < v.Len(); i++ {
				if err := walk(v.Index(i)); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return walk(reflect.ValueOf(root))
}

func declaredErr(root any) error {
	return allNodes(root, func(x any) error {
		var want ast.IdentList
		switch v := x.(type) {
		case *ast.ConstantDecl:
			want = ast.IdentList{v.Ident}
		case *ast.VarDecl:
			want = v.IdentList
		case *ast.ThreadVarDecl:
			want = v.IdentList
		case *ast.TypeDecl:
			want = ast.IdentList{v.Ident}
		case *ast.EnumeratedTypeElement:
			want = ast.IdentList{v.Ident}
		case *ast.FieldDecl:
			want = v.IdentList
		case *ast.FormalParm:
			want = v.Parameter.IdentList
		case *ast.FunctionDecl:
			want = ast.IdentList{v.FunctionHeading.Ident}
		case *ast.ExportedHeading:
			want = ast.IdentList{v.FunctionHeading.Ident}
		case *ast.LabelDeclSection:
			want = ast.IdentList{v.LabelId}
		case *ast.ExceptionBlockHandlerDecl:
			if v.Ident == nil {
				return nil
			}
			want = ast.IdentList{v.Ident}
		case *ast.UsesClauseItem:
			want = ast.IdentList{v.Ident}
		case *ast.ClassField:
			want = v.IdentList
		case *ast.ClassMethod:
			switch h := v.Heading.(type) {
			case *ast.FunctionHeading:
				want = ast.IdentList{h.Ident}
			case *ast.ConstructorHeading:
				want = ast.IdentList{h.Ident}
			case *ast.DestructorHeading:
				want = ast.IdentList{h.Ident}
			}
			if g := v.Heading.GetIdent(); g != want[0] {
				return fmt.Errorf("%T.GetIdent of %s gives %s", v.Heading, want[0].Name, g)
			}
		case *ast.ClassProperty:
			want = ast.IdentList{v.Ident}
		case *ast.Program:
			want = ast.IdentList{v.Ident}
			if v.GetIdent() != v.Ident || v.GetPath() != v.Path || !sameMap(v.GetDeclMap(), v.DeclMap) {
				return fmt.Errorf("the program says about itself: %s, %q", v.GetIdent(), v.GetPath())
			}
			if v.Ident == nil {
				return nil
			}
		case *ast.Unit:
			want = ast.IdentList{v.Ident}
			if v.GetIdent() != v.Ident || v.GetPath() != v.Path || !sameMap(v.GetDeclMap(), v.DeclMap) {
				return fmt.Errorf("the unit says about itself: %s, %q", v.GetIdent(), v.GetPath())
			}
		case *ast.ArrayType:
			return packedErr(v, v.Packed)
		case *ast.SetType:
			return packedErr(v, v.Packed)
		case *ast.FileType:
			return packedErr(v, v.Packed)
		case *ast.RecType:
			return packedErr(v, v.Packed)
		case ast.ConstSection:
			return sectionErr(v, len(v), func(i int) any { return v[i] })
		case ast.VarSection:
			return sectionErr(v, len(v), func(i int) any { return v[i] })
		case ast.ThreadVarSection:
			return sectionErr(v, len(v), func(i int) any { return v[i] })
		case ast.TypeSection:
			return sectionErr(v, len(v), func(i int) any { return v[i] })
		case ast.IdentList:
			names := v.Names()
			if len(names) != len(v) {
				return fmt.Errorf("a list of %d identifiers has %d names", len(v), len(names))
			}
			for i, n := range v {
				if names[i] != n.Name || n.String() != n.Name {
					return fmt.Errorf("the identifier %s has the name %s", n.Name, names[i])
				}
			}
			return nil
		default:
			return nil
		}
		if h, ok := x.(*ast.ExportedHeading); ok {
			if err := sectionErr(h, 1, func(int) any { return h }); err != nil {
				return err
			}
		}
		ds := x.(astcore.DeclNode).ToDeclarations()
		if len(ds) != len(want) {
			return fmt.Errorf("%T of %v gives %d declarations", x, want.Names(), len(ds))
		}
		for i, d := range ds {
			if d.Ident != want[i] || any(d.Node) != x {
				return fmt.Errorf("%T of %v gives the declaration of %s with a %T", x, want.Names(), d.Ident, d.Node)
			}
		}
		return nil
	})
}

func sameMap(a, b astcore.DeclMap) bool {
	return fmt.Sprintf("%T %p", a, a) == fmt.Sprintf("%T %p", b, b)
}

func packedErr(t ast.StrucType, want bool) error {
	if t.IsPacked() != want {
		return fmt.Errorf("IsPacked of %T is %v", t, !want)
	}
	return nil
}

func sectionErr(s interface {
	GetDeclNodes() astcore.DeclNodes
}, n int, at func(int) any) error {
	g := s.GetDeclNodes()
	if len(g) != n {
		return fmt.Errorf("%T of %d declarations gives %d", s, n, len(g))
	}
	for i := range g {
		if any(g[i]) != at(i) {
			return fmt.Errorf("%T gives another declaration at %d", s, i)
		}
	}
	return nil
}

// ---- trees which no source has

type treeCase struct {
	Root    string `json:"root"`
	Choices []int  `json:"choices"`
	Stop    int    `json:"stop"`
}

// treeTypes are the types of nodes which can be where an interface is demanded.
var treeTypes = []any{
	&ast.TypeId{}, ast.EnumeratedType{}, &ast.SubrangeType{}, &ast.ArrayType{}, &ast.SetType{}, &ast.FileType{}, &ast.RecType{},
	&ast.FixedStringType{}, &ast.CustomPointerType{}, &ast.ProcedureType{}, &ast.CustomClassType{}, &ast.CustomClassRefType{},
	&ast.ForwardDeclaredClassType{}, &ast.CustomInterfaceType{}, &ast.CustomObjectType{},
	&ast.Nil{}, &ast.NumberFactor{}, &ast.StringFactor{}, &ast.ValueFactor{}, &ast.DesignatorFactor{}, &ast.Address{}, &ast.Parentheses{}, &ast.Not{}, &ast.SetConstructor{}, &ast.TypeCast{},
	&ast.DesignatorItemDereference{}, &ast.DesignatorItemIdent{}, ast.DesignatorItemExprList{},
	&ast.AssemblerStatement{}, &ast.CompoundStmt{}, &ast.InheritedStatement{}, &ast.GotoStatement{}, &ast.CallStatement{}, &ast.AssignStatement{}, &ast.IfStmt{}, &ast.CaseStmt{}, &ast.RepeatStmt{}, &ast.WhileStmt{}, &ast.ForStmt{}, &ast.WithStmt{}, &ast.TryExceptStmt{}, &ast.TryFinallyStmt{}, &ast.RaiseStmt{},
	&ast.LabelDeclSection{}, ast.ConstSection{}, ast.VarSection{}, ast.ThreadVarSection{}, ast.TypeSection{}, &ast.FunctionDecl{}, &ast.ExportedHeading{},
	&ast.VarDeclAbsoluteIdent{},
	&ast.DestructorHeading{}, &ast.ConstructorHeading{}, &ast.FunctionHeading{},
}

// treeRoots are the nodes at which a tree begins.
var treeRoots = map[string]any{
	"program": &ast.Program{}, "unit": &ast.Unit{}, "block": &ast.Block{}, "expression": &ast.Expression{}, "statement": &ast.Statement{},
	"statements": ast.StmtList{}, "type": &ast.TypeDecl{}, "class": &ast.CustomClassType{}, "interface": &ast.CustomInterfaceType{}, "object": &ast.CustomObjectType{},
	"interface method": &ast.InterfaceMethod{}, "interface property": &ast.InterfaceProperty{}, "guid": &ast.InterfaceGuid{}, "uses": ast.UsesClause{}, "params": ast.FormalParameters{}, "fields": &ast.FieldList{},
}

var treeRootNames = func() []string {
	r := []string{}
	for k := range treeRoots {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}()

// treeOptional are the parts that a node may lack.
var treeOptional = map[string]bool{
	"SimpleExpression.UnaryOp": true, "QualId.NamespaceId": true, "SetElement.SubRangeEnd": true, "IfStmt.Else": true, "VarDecl.ConstExpr": true, "VarDecl.Absolute": true,
	"EnumeratedTypeElement.ConstExpr": true, "Parameter.ConstExpr": true, "Parameter.Type": true, "VarDecl.Type": true, "ThreadVarDecl.Type": true, "ConstantDecl.Type": true, "TypeId.UnitId": true,
	"FunctionHeading.ReturnType": true, "ProcedureType.ReturnType": true, "Statement.LabelId": true, "Statement.Body": true, "Block.Body": true, "ExportsItem.Name": true, "ExportsItem.Index": true,
	"FieldList.VariantSection": true, "VariantSection.Ident": true, "Unit.InitSection": true, "Unit.InterfaceSection": true, "Unit.ImplementationSection": true, "CustomInterfaceType.Guid": true,
	"ExceptionBlockHandlerDecl.Ident": true, "RaiseStmt.Object": true, "RaiseStmt.Address": true, "PropertyStoredSpecifier.IdentRef": true, "PropertyDefaultSpecifier.Value": true, "CaseLabel.ExtraConstExpr": true,
	"ClassProperty.Interface": true, "ClassProperty.Index": true, "ClassProperty.Read": true, "ClassProperty.Write": true, "ClassProperty.Stored": true, "ClassProperty.Default": true, "ClassProperty.Implements": true,
	"InterfaceProperty.Interface": true, "InterfaceProperty.Read": true, "InterfaceProperty.Write": true, "PropertyInterface.Type": true, "Program.Ident": true,
}

// treeInner are the embedded interfaces which hold a part.
var treeInner = map[string]bool{"SetType.OrdinalType": true, "FixedStringType.StringType": true, "Not.Factor": true}

type treeBuilder struct {
	ch    *choices
	ids   int
	types map[string]bool
}

func (b *treeBuilder) value(t reflect.Type, depth int) (reflect.Value, bool) {
	b.types[t.String()] = true
	switch t.Kind() {
	case reflect.Ptr:
		if t.Elem() == identType || t.Elem() == absIdentType {
			b.ids++
			p := &runes.Position{Line: 1, Col: b.ids, Index: b.ids}
			id := &ast.Ident{Name: fmt.Sprintf("i%d", b.ids), Location: &ast.Location{Start: p, End: p}}
			if t.Elem() == absIdentType {
				return reflect.ValueOf((*ast.VarDeclAbsoluteIdent)(id)), true
			}
			return reflect.ValueOf(id), true
		}
		if t.Elem().Kind() != reflect.Struct {
			r := reflect.New(t.Elem())
			return r, true
		}
		r := reflect.New(t.Elem())
		st := t.Elem()
		for i := 0; i < st.NumField(); i++ {
			f := st.Field(i)
			if f.PkgPath != "" || skipFields[f.Name] {
				continue
			}
			name := st.Name() + "." + f.Name
			switch f.Type.Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Slice:
			case reflect.Bool:
				r.Elem().Field(i).SetBool(b.ch.n(1) == 1)
				continue
			default:
				continue
			}
			if f.Anonymous && f.Type.Kind() == reflect.Interface && !treeInner[name] {
				continue
			}
			if treeOptional[name] && (depth <= 0 || b.ch.n(2) == 0) {
				continue
			}
			v, ok := b.value(f.Type, depth-1)
			if !ok {
				continue
			}
			r.Elem().Field(i).Set(v)
		}
		return r, true
	case reflect.Slice:
		n := 0
		if depth > 0 {
			n = b.ch.n(3)
			if n == 0 && b.ch.n(1) == 0 {
				return reflect.Zero(t), true // nil
			}
		}
		r := reflect.MakeSlice(t, 0, n)
		for i := 0; i < n; i++ {
			v, ok := b.value(t.Elem(), depth-1)
			if ok {
				r = reflect.Append(r, v)
			}
		}
		return r, true
	case reflect.Interface:
		var fit []reflect.Type
		for _, x := range treeTypes {
			if xt := reflect.TypeOf(x); xt.Implements(t) && !(strings.HasSuffix(t.Name(), "MethodHeading") && !strings.HasSuffix(xt.Elem().Name(), "torHeading") && xt.Elem().Name() != "FunctionHeading") {
				fit = append(fit, xt)
			}
		}
		if len(fit) == 0 {
			return reflect.Value{}, false
		}
		k := 0
		if depth > 0 {
			k = b.ch.n(len(fit) - 1)
		}
		return b.value(fit[k], depth-1)
	}
	return reflect.Zero(t), true
}

func genTree(t *rapid.T) treeCase {
	return treeCase{Root: pick(t, "root", treeRootNames), Choices: genChoices(t, uniform(t, 400)), Stop: uniform(t, 60)}
}

func buildTree(c *treeCase) (astcore.Node, []string, map[string]bool) {
	b := &treeBuilder{ch: &choices{c: c.Choices}, types: map[string]bool{}}
	v, _ := b.value(reflect.TypeOf(treeRoots[c.Root]), 12)
	want := []string{}
	for _, o := range ownedIdents(v.Interface()) {
		want = append(want, fmt.Sprintf("%d:%s", o.ident.Location.Start.Index, o.ident.Name))
	}
	return v.Interface().(astcore.Node), want, b.types
}

func checkTree(c *treeCase) error {
	root, want, _ := buildTree(c)
	if reflect.ValueOf(root).Kind() == reflect.Slice {
		return walkList(root, want)
	}
	return walkErr(root, want, c.Stop)
}

// walkList is walkErr for a list, which can't be compared.
func walkList(root astcore.Node, want []string) error {
	return walkErr(&listNode{root}, want, 0)
}

type listNode struct{ n astcore.Node }

func (l *listNode) Children() astcore.Nodes { return astcore.Nodes{l.n} }

func checkTreeDecls(c *treeCase) error {
	root, _, _ := buildTree(c)
	return declaredErr(root)
}

func treeIdents(n int) func(c *treeCase) bool {
	return func(c *treeCase) bool {
		_, want, _ := buildTree(c)
		return len(want) >= n
	}
}

func init() {
	properties = append(properties,
		&Property{ID: "P22", Facets: []Facet{
			facet("rebuilt", "generated programs and units; the parsed tree is built again with the constructors of the nodes, from arguments in a form drawn for each; structure, positions and references must be the same, and each node must declare its identifiers; non-trivial: at least 20 tokens", 24000, 1200000,
				genBuild(mixedProfile()), checkBuild, func(c *buildCase) bool { return len(c.Choices) >= 60 }, func(c *buildCase) []string { return append([]string{c.Kind}, c.Feats...) }),
			facet("declared", "trees made of nodes of all types, with and without their optional parts; each node must declare its identifiers; non-trivial: at least 3 identifiers", 40000, 2000000,
				genTree, checkTreeDecls, treeIdents(3), func(c *treeCase) []string { return []string{c.Root} }),
		}},
	)
}
