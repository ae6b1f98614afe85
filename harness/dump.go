package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

// The dump modes. plain: the structure; loc: with the location of every
// identifier; refs: with the declaration each reference resolves to.
const (
	modePlain = "plain"
	modeLoc   = "loc"
	modeRefs  = "refs"
)

func sx(tag string, args ...string) string {
	if len(args) == 0 {
		return "(" + tag + ")"
	}
	return "(" + tag + " " + strings.Join(args, " ") + ")"
}

func lst(args []string) string { return "[" + strings.Join(args, " ") + "]" }

const none = "_"

type dumper struct {
	mode string
	// own tells the file (0, 1, ...) to which an identifier node belongs.
	own map[*ast.Ident]int
	// tokno: references are shown by the number of the token at an index.
	tokno map[int]int
}

func isNil(v any) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func:
		return rv.IsNil()
	}
	return false
}

func locStr(name string, l *ast.Location) string {
	if l == nil || l.Start == nil || l.End == nil {
		return name + "@nil"
	}
	return fmt.Sprintf("%s@%d:%d:%d-%d:%d:%d", name, l.Start.Line, l.Start.Col, l.Start.Index, l.End.Line, l.End.Col, l.End.Index)
}

func (d *dumper) id(i *ast.Ident) string {
	if i == nil {
		return none
	}
	if d.mode == modeLoc {
		return locStr(i.Name, i.Location)
	}
	return d.name(i.Name)
}

// name is the name as it is compared: when two spellings of a text are, in one letter case.
func (d *dumper) name(s string) string {
	if d.tokno != nil {
		return strings.ToLower(s)
	}
	return s
}

func (d *dumper) ids(l ast.IdentList) string {
	r := []string{}
	for _, i := range l {
		r = append(r, d.id(i))
	}
	return lst(r)
}

// declKind names the kind of the node which declares something.
func declKind(n any) string {
	switch n := n.(type) {
	case *ast.ConstantDecl:
		return "const"
	case *ast.VarDecl:
		return "var"
	case *ast.ThreadVarDecl:
		return "threadvar"
	case *ast.TypeDecl:
		if _, ok := n.Type.(*ast.TypeEmbedded); ok {
			return "builtin"
		}
		return "type"
	case *ast.EnumeratedTypeElement:
		return "enum"
	case *ast.FormalParm:
		return "param"
	case *ast.FunctionDecl:
		return "routine"
	case *ast.ExportedHeading:
		return "heading"
	case *ast.LabelDeclSection:
		return "label"
	case *ast.ExceptionBlockHandlerDecl:
		return "handler"
	case *ast.UsesClauseItem:
		return "uses"
	case *ast.Program:
		return "program"
	case *ast.Unit:
		return "unit"
	case *ast.ClassField:
		return "field"
	case *ast.ClassMethod:
		return "method"
	case *ast.ClassProperty:
		return "property"
	}
	return fmt.Sprintf("%T", n)
}

func (d *dumper) ref(r *astcore.Decl) string {
	if d.mode != modeRefs {
		return ""
	}
	if r == nil {
		return "->nil"
	}
	if isNil(r.Node) {
		return "->nodeless"
	}
	k := declKind(r.Node)
	if k == "builtin" {
		return "->builtin:" + strings.ToUpper(r.Ident.Name)
	}
	if r.Ident == nil {
		return "->" + k + ":noident"
	}
	file, ok := d.own[r.Ident]
	if !ok {
		return "->" + k + ":" + d.name(r.Ident.Name) + "@elsewhere"
	}
	if r.Location == nil || r.Location.Start == nil {
		return "->" + k + ":" + d.name(r.Ident.Name) + "@nolocation"
	}
	if d.tokno != nil {
		n, ok := d.tokno[r.Location.Start.Index]
		if !ok {
			n = -1
		}
		return fmt.Sprintf("->%s:%s@%d#%d", k, d.name(r.Ident.Name), file, n)
	}
	return fmt.Sprintf("->%s:%s@%d:%d:%d", k, d.name(r.Ident.Name), file, r.Location.Start.Line, r.Location.Start.Col)
}

func (d *dumper) idref(r *ast.IdentRef) string {
	if r == nil {
		return none
	}
	return d.id(r.Ident) + d.ref(r.Ref)
}

// ---- expressions

func (d *dumper) expr(e *ast.Expression) string {
	if e == nil {
		return none
	}
	s := d.simple(e.SimpleExpression)
	if len(e.RelOpSimpleExpressions) == 0 {
		return s
	}
	args := []string{s}
	for _, x := range e.RelOpSimpleExpressions {
		args = append(args, sx(x.RelOp, d.simple(x.SimpleExpression)))
	}
	return sx("rel", args...)
}

func (d *dumper) simple(e *ast.SimpleExpression) string {
	if e == nil {
		return none
	}
	s := d.term(e.Term)
	if e.UnaryOp == nil && len(e.AddOpTerms) == 0 {
		return s
	}
	u := none
	if e.UnaryOp != nil {
		u = *e.UnaryOp
	}
	args := []string{u, s}
	for _, x := range e.AddOpTerms {
		args = append(args, sx(x.AddOp, d.term(x.Term)))
	}
	return sx("add", args...)
}

func (d *dumper) term(e *ast.Term) string {
	if e == nil {
		return none
	}
	s := d.factor(e.Factor)
	if len(e.MulOpFactors) == 0 {
		return s
	}
	args := []string{s}
	for _, x := range e.MulOpFactors {
		args = append(args, sx(x.MulOp, d.factor(x.Factor)))
	}
	return sx("mul", args...)
}

func (d *dumper) exprs(l ast.ExprList) string {
	r := []string{}
	for _, e := range l {
		r = append(r, d.expr(e))
	}
	return lst(r)
}

func (d *dumper) factor(f ast.Factor) string {
	if isNil(f) {
		return none
	}
	switch f := f.(type) {
	case *ast.DesignatorFactor:
		if len(f.ExprList) == 0 {
			return d.designator(f.Designator)
		}
		return sx("call", d.designator(f.Designator), d.exprs(f.ExprList))
	case *ast.Address:
		return sx("addr", d.designator(f.Designator))
	case *ast.NumberFactor:
		return sx("num", f.Value)
	case *ast.StringFactor:
		return sx("str", f.Value)
	case *ast.ValueFactor:
		return sx("val", d.name(f.Value))
	case *ast.Nil:
		return "(nil)"
	case *ast.Parentheses:
		return sx("paren", d.expr(f.Expression))
	case *ast.Not:
		return sx("not", d.factor(f.Factor))
	case *ast.SetConstructor:
		r := []string{}
		for _, e := range f.SetElements {
			if e.SubRangeEnd != nil {
				r = append(r, sx("..", d.expr(e.Expression), d.expr(e.SubRangeEnd)))
			} else {
				r = append(r, d.expr(e.Expression))
			}
		}
		return sx("set", r...)
	case *ast.TypeCast:
		return sx("cast", d.typ(f.TypeId), d.expr(f.Expression))
	}
	return fmt.Sprintf("<%T>", f)
}

func (d *dumper) qualId(q *ast.QualId) string {
	if q == nil {
		return none
	}
	if q.NamespaceId != nil {
		return sx("q", d.idref(q.NamespaceId), d.idref(q.Ident))
	}
	return d.idref(q.Ident)
}

func (d *dumper) designator(g *ast.Designator) string {
	if g == nil {
		return none
	}
	q := d.qualId(g.QualId)
	if len(g.Items) == 0 {
		return q
	}
	args := []string{q}
	for _, it := range g.Items {
		switch it := it.(type) {
		case *ast.DesignatorItemIdent:
			args = append(args, sx(".", d.id((*ast.Ident)(it.Ident))))
		case ast.DesignatorItemExprList:
			args = append(args, sx("ix", d.exprs(ast.ExprList(it))))
		case *ast.DesignatorItemDereference:
			args = append(args, "(^)")
		default:
			args = append(args, fmt.Sprintf("<%T>", it))
		}
	}
	return sx("des", args...)
}

// ---- statements

func (d *dumper) stmts(l ast.StmtList) string {
	r := []string{}
	for _, s := range l {
		r = append(r, d.stmt(s))
	}
	return lst(r)
}

func (d *dumper) stmt(s *ast.Statement) string {
	if s == nil {
		return none
	}
	b := d.stmtBody(s.Body)
	if s.LabelId != nil {
		return sx("lbl", d.id(s.LabelId), b)
	}
	return b
}

func (d *dumper) stmtBody(b ast.StatementBody) string {
	if isNil(b) {
		return "(empty)"
	}
	switch b := b.(type) {
	case *ast.CallStatement:
		return sx("callst", d.designator(b.Designator), d.exprs(b.ExprList))
	case *ast.AssignStatement:
		return sx(":=", d.designator(b.Designator), d.expr(b.Expression))
	case *ast.InheritedStatement:
		return "(inherited)"
	case *ast.GotoStatement:
		return sx("goto", d.id(b.LabelId)+d.ref(b.Ref))
	case *ast.CompoundStmt:
		return sx("begin", d.stmts(b.StmtList))
	case *ast.IfStmt:
		return sx("if", d.expr(b.Condition), d.stmt(b.Then), d.stmt(b.Else))
	case *ast.CaseStmt:
		sel := []string{}
		for _, s := range b.Selectors {
			ls := []string{}
			for _, l := range s.Labels {
				if l.ExtraConstExpr != nil {
					ls = append(ls, sx("..", d.expr(l.ConstExpr), d.expr(l.ExtraConstExpr)))
				} else {
					ls = append(ls, d.expr(l.ConstExpr))
				}
			}
			sel = append(sel, sx("sel", lst(ls), d.stmt(s.Statement)))
		}
		return sx("case", d.expr(b.Expression), lst(sel), d.stmts(b.Else))
	case *ast.RepeatStmt:
		return sx("repeat", d.stmts(b.StmtList), d.expr(b.Condition))
	case *ast.WhileStmt:
		return sx("while", d.expr(b.Condition), d.stmt(b.Statement))
	case *ast.ForStmt:
		dir := "to"
		if b.Down {
			dir = "downto"
		}
		return sx("for", d.qualId(b.QualId), d.expr(b.Initial), dir, d.expr(b.Terminal), d.stmt(b.Statement))
	case *ast.WithStmt:
		r := []string{}
		for _, q := range b.Objects {
			r = append(r, d.qualId(q))
		}
		return sx("with", lst(r), d.stmt(b.Statement))
	case *ast.TryExceptStmt:
		h := []string{}
		els := "[]"
		if b.ExceptionBlock != nil {
			for _, x := range b.ExceptionBlock.Handlers {
				if x.Decl == nil {
					h = append(h, sx("on", none, none, d.stmt(x.Statement)))
				} else {
					h = append(h, sx("on", d.id(x.Decl.Ident), d.typ(x.Decl.Type), d.stmt(x.Statement)))
				}
			}
			els = d.stmts(b.ExceptionBlock.Else)
		}
		return sx("except", d.stmts(b.Statements), lst(h), els)
	case *ast.TryFinallyStmt:
		return sx("finally", d.stmts(b.Statements1), d.stmts(b.Statements2))
	case *ast.RaiseStmt:
		return sx("raise", d.expr(b.Object), d.expr(b.Address))
	case *ast.AssemblerStatement:
		return "(asm)"
	}
	return fmt.Sprintf("<%T>", b)
}

// ---- types

func packed(s string, p bool) string {
	if p {
		return sx("packed", s)
	}
	return s
}

func (d *dumper) typeId(t *ast.TypeId) string {
	if t == nil {
		return none
	}
	if t.UnitId != nil {
		return sx("q", d.id(t.UnitId), d.id(t.Ident)+d.ref(t.Ref))
	}
	return d.id(t.Ident) + d.ref(t.Ref)
}

func (d *dumper) typ(t any) string {
	if isNil(t) {
		return none
	}
	switch t := t.(type) {
	case *ast.TypeId:
		return d.typeId(t)
	case ast.EnumeratedType:
		r := []string{}
		for _, e := range t {
			if e.ConstExpr != nil {
				r = append(r, sx("=", d.id(e.Ident), d.expr(e.ConstExpr)))
			} else {
				r = append(r, d.id(e.Ident))
			}
		}
		return sx("enum", r...)
	case *ast.SubrangeType:
		return sx("range", d.expr(t.Low), d.expr(t.High))
	case *ast.ArrayType:
		r := []string{}
		for _, x := range t.IndexTypes {
			r = append(r, d.typ(x))
		}
		return packed(sx("array", lst(r), d.typ(t.BaseType)), t.Packed)
	case *ast.SetType:
		return packed(sx("setof", d.typ(t.OrdinalType)), t.Packed)
	case *ast.FileType:
		return packed(sx("fileof", d.typ(t.TypeId)), t.Packed)
	case *ast.RecType:
		return packed(sx("record", d.fields(t.FieldList)), t.Packed)
	case *ast.FixedStringType:
		return sx("fixed", d.typ(t.StringType), d.expr(t.Length))
	case *ast.CustomPointerType:
		return sx("ptr", d.typ(t.TypeId))
	case *ast.ProcedureType:
		k := "proctype"
		if t.FunctionType == ast.FtFunction {
			k = "functype"
		}
		s := sx(k, d.params(t.FormalParameters), d.typ(t.ReturnType))
		if t.OfObject {
			s = sx("ofobject", s)
		}
		return s
	case *ast.ForwardDeclaredClassType:
		return "(forwardclass)"
	case *ast.CustomClassType:
		return d.class(t)
	case *ast.CustomClassRefType:
		return sx("classof", d.typ(t.TypeId))
	case *ast.TypeEmbedded:
		return sx("embedded", d.id(t.Ident))
	}
	return fmt.Sprintf("<%T>", t)
}

func (d *dumper) fields(l *ast.FieldList) string {
	if l == nil {
		return none
	}
	r := []string{}
	for _, f := range l.FieldDecls {
		r = append(r, sx("f", d.ids(f.IdentList), d.typ(f.Type)))
	}
	if l.VariantSection == nil {
		return lst(r)
	}
	v := l.VariantSection
	vs := []string{}
	for _, x := range v.RecVariants {
		vs = append(vs, sx("v", d.exprs(x.ConstExprs), d.fields(x.FieldList)))
	}
	return lst(append(r, sx("case", d.id(v.Ident), d.typ(v.TypeId), lst(vs))))
}

func (d *dumper) params(ps ast.FormalParameters) string {
	r := []string{}
	for _, p := range ps {
		opt := none
		if p.Opt != nil {
			opt = string(*p.Opt)
		}
		if p.Parameter == nil {
			r = append(r, sx("p", opt, "<nil>"))
			continue
		}
		t := none
		if p.Type != nil {
			t = d.typ(p.Type.Type)
			if p.Type.IsArray {
				t = sx("arrayof", t)
			}
		}
		r = append(r, sx("p", opt, d.ids(p.IdentList), t, d.expr(p.ConstExpr)))
	}
	return lst(r)
}

func (d *dumper) class(t *ast.CustomClassType) string {
	h := []string{}
	for _, x := range t.Heritage {
		h = append(h, d.typ(x))
	}
	secs := []string{}
	for _, s := range t.Members {
		args := []string{string(s.Visibility)}
		for _, f := range s.ClassFieldList {
			args = append(args, sx("f", d.ids(f.IdentList), d.typ(f.Type)))
		}
		for _, m := range s.ClassMethodList {
			var hd string
			switch x := m.Heading.(type) {
			case *ast.FunctionHeading:
				hd = d.heading(x)
			case *ast.ConstructorHeading:
				hd = sx("ctor", d.id(x.Ident), d.params(x.FormalParameters))
			case *ast.DestructorHeading:
				hd = sx("dtor", d.id(x.Ident))
			default:
				hd = fmt.Sprintf("<%T>", x)
			}
			dirs := []string{}
			for _, x := range m.Directives {
				dirs = append(dirs, string(x))
			}
			k := "m"
			if m.ClassMethod {
				k = "classm"
			}
			args = append(args, sx(k, hd, lst(dirs)))
		}
		for _, p := range s.ClassPropertyList {
			args = append(args, d.property(p))
		}
		secs = append(secs, sx("sec", args...))
	}
	return sx("class", lst(h), lst(secs))
}

func (d *dumper) property(p *ast.ClassProperty) string {
	intf := none
	if p.Interface != nil {
		intf = sx("if", d.params(p.Interface.Parameters), d.typ(p.Interface.Type))
	}
	stored := none
	if s := p.Stored; s != nil {
		switch {
		case s.Constant != nil && *s.Constant:
			stored = "true"
		case s.Constant != nil:
			stored = "false"
		default:
			stored = d.idref(s.IdentRef)
		}
	}
	def := none
	if x := p.Default; x != nil {
		switch {
		case x.NoDefault != nil && *x.NoDefault:
			def = "nodefault"
		default:
			def = d.expr(x.Value)
		}
	}
	return sx("prop", d.id(p.Ident), intf, d.expr(p.Index), d.idref(p.Read), d.idref(p.Write), stored, def, d.typ(p.Implements))
}

// ---- declarations

func (d *dumper) heading(h *ast.FunctionHeading) string {
	if h == nil {
		return none
	}
	k := "proc"
	if h.Type == ast.FtFunction {
		k = "func"
	}
	return sx(k, d.id(h.Ident), d.params(h.FormalParameters), d.typ(h.ReturnType))
}

func (d *dumper) directives(l []ast.Directive, o *ast.ExternalOptions) string {
	r := []string{}
	for _, x := range l {
		r = append(r, string(x))
	}
	s := lst(r)
	if o == nil {
		return s + " " + none
	}
	n, i := none, none
	if o.Name != nil {
		n = *o.Name
	}
	if o.Index != nil {
		i = fmt.Sprint(*o.Index)
	}
	return s + " " + sx("ext", o.LibraryName, n, i)
}

func portability(p *ast.PortabilityDirective) string {
	if p == nil {
		return none
	}
	return string(*p)
}

func (d *dumper) decl(n any) string {
	if isNil(n) {
		return none
	}
	switch n := n.(type) {
	case ast.ConstSection:
		r := []string{}
		for _, c := range n {
			r = append(r, sx("c", d.id(c.Ident), d.typ(c.Type), d.expr(c.ConstExpr)))
		}
		return sx("const", r...)
	case ast.VarSection:
		r := []string{}
		for _, v := range n {
			abs := none
			switch a := v.Absolute.(type) {
			case nil:
			case *ast.VarDeclAbsoluteIdent:
				abs = d.id((*ast.Ident)(a))
			default:
				abs = fmt.Sprintf("<%T>", a)
			}
			r = append(r, sx("v", d.ids(v.IdentList), d.typ(v.Type), abs, d.expr(v.ConstExpr)))
		}
		return sx("var", r...)
	case ast.ThreadVarSection:
		r := []string{}
		for _, v := range n {
			r = append(r, sx("v", d.ids(v.IdentList), d.typ(v.Type)))
		}
		return sx("threadvar", r...)
	case ast.TypeSection:
		r := []string{}
		for _, t := range n {
			r = append(r, sx("t", d.id(t.Ident), d.typ(t.Type), portability(t.PortabilityDirective)))
		}
		return sx("type", r...)
	case *ast.LabelDeclSection:
		return sx("label", d.id(n.LabelId))
	case *ast.FunctionDecl:
		return sx("routine", d.heading(n.FunctionHeading), d.directives(n.Directives, n.ExternalOptions), d.block(n.Block))
	case *ast.ExportedHeading:
		return sx("heading", d.heading(n.FunctionHeading), d.directives(n.Directives, n.ExternalOptions))
	}
	return fmt.Sprintf("<%T>", n)
}

func (d *dumper) exports(l ast.ExportsStmts) string {
	r := []string{}
	for _, s := range l {
		it := []string{}
		for _, i := range s.ExportsItems {
			it = append(it, sx("x", d.id(i.Ident), d.expr(i.Name), d.expr(i.Index)))
		}
		r = append(r, sx("exports", it...))
	}
	return lst(r)
}

func (d *dumper) decls(l ast.DeclSections) string {
	r := []string{}
	for _, x := range l {
		r = append(r, d.decl(x))
	}
	return lst(r)
}

func (d *dumper) block(b *ast.Block) string {
	if b == nil {
		return sx("block", "[]", "[]", none, "[]")
	}
	body := none
	if !isNil(b.Body) {
		body = d.stmtBody(b.Body)
	}
	return sx("block", d.decls(b.DeclSections), d.exports(b.ExportsStmts1), body, d.exports(b.ExportsStmts2))
}

func (d *dumper) uses(u ast.UsesClause) string {
	r := []string{}
	for _, i := range u {
		p := none
		if i.Path != nil {
			p = *i.Path
		}
		r = append(r, sx("u", d.id(i.Ident), p))
	}
	return lst(r)
}

func (d *dumper) program(p *ast.Program) string {
	if p.ProgramBlock == nil {
		return sx("program", d.id(p.Ident), none)
	}
	return sx("program", d.id(p.Ident), d.uses(p.ProgramBlock.UsesClause), d.block(p.ProgramBlock.Block))
}

func (d *dumper) unit(u *ast.Unit) string {
	intf, impl, ini := none, none, none
	if s := u.InterfaceSection; s != nil {
		r := []string{}
		for _, x := range s.InterfaceDecls {
			r = append(r, d.decl(x))
		}
		intf = sx("interface", d.uses(s.UsesClause), lst(r))
	}
	if s := u.ImplementationSection; s != nil {
		impl = sx("implementation", d.uses(s.UsesClause), d.decls(s.DeclSections), d.exports(s.ExportsStmts))
	}
	if s := u.InitSection; s != nil {
		ini = sx("init", d.stmts(s.InitializationStmts), d.stmts(s.FinalizationStmts))
	}
	return sx("unit", d.id(u.Ident), portability(u.PortabilityDirective), intf, impl, ini)
}

// ---------------------------------------------------------------------------
// Ownership: which identifier nodes are in the tree below a node. References to
// other nodes are not followed.

var identType = reflect.TypeOf(ast.Ident{})
var absIdentType = reflect.TypeOf(ast.VarDeclAbsoluteIdent{})
var skipFields = map[string]bool{"Ref": true, "Parent": true, "Actual": true, "DeclMap": true, "Unit": true, "Location": true, "Units": true}

type ownedIdent struct {
	ident *ast.Ident
	abs   bool // the name after ABSOLUTE, which is no ast.Ident node
}

func ownedIdents(root any) []ownedIdent {
	var r []ownedIdent
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			switch v.Type().Elem() {
			case identType:
				if p := v.Pointer(); !seen[p] {
					seen[p] = true
					r = append(r, ownedIdent{ident: v.Interface().(*ast.Ident)})
				}
				return
			case absIdentType:
				if p := v.Pointer(); !seen[p] {
					seen[p] = true
					r = append(r, ownedIdent{ident: (*ast.Ident)(v.Interface().(*ast.VarDeclAbsoluteIdent)), abs: true})
				}
				return
			}
			if v.Elem().Kind() == reflect.Struct {
				if p := v.Pointer(); seen[p] {
					return
				} else {
					seen[p] = true
				}
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			t := v.Type()
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if f.PkgPath != "" && !f.Anonymous || skipFields[f.Name] {
					continue
				}
				walk(v.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(root))
	return r
}
