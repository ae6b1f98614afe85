package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P04: no input makes the parser panic, hang or exhaust memory

type totalCase struct {
	Kind  string `json:"kind"` // program, unit or the name of an entry point
	Class string `json:"class"`
	Text  string `json:"text"`
}

// entryPoints are the parsers of single constructs; the methods are looked up when the check runs.
var entryPoints = map[string]*entryPoint{
	"Block":                   {name: "ParseBlock"},
	"DeclSections":            {name: "ParseDeclSections"},
	"ExportsStmts":            {name: "ParseExportsStmts"},
	"ExportsStmt":             {name: "ParseExportsStmt", args: []any{true}},
	"LabelDeclSection":        {name: "ParseLabelDeclSection"},
	"ConstSection":            {name: "ParseConstSection", args: []any{true}},
	"ConstSection?":           {name: "ParseConstSection", args: []any{false}},
	"ConstantDecl":            {name: "ParseConstantDecl"},
	"Expression":              {name: "ParseExpression"},
	"Designator":              {name: "ParseDesignator"},
	"SetConstructor":          {name: "ParseSetConstructor"},
	"ProcedureDeclSection":    {name: "ParseProcedureDeclSection"},
	"ExportedHeading":         {name: "ParseExportedHeading"},
	"FunctionHeading":         {name: "ParseFunctionHeading"},
	"FormalParameters":        {name: "ParseFormalParameters", args: []any{'(', ')'}},
	"IdentList":               {name: "ParseIdentList", args: []any{':'}},
	"CompoundStmt":            {name: "ParseCompoundStmt", args: []any{true}},
	"CompoundStmt?":           {name: "ParseCompoundStmt", args: []any{false}},
	"StmtList":                {name: "ParseStmtList", args: []any{token.ReservedWord.HasKeyword("END")}},
	"Statement":               {name: "ParseStatement"},
	"DesignatorStatement":     {name: "ParseDesignatorStatement"},
	"GotoStatement":           {name: "ParseGotoStatement"},
	"AssemblerStatement":      {name: "ParseAssemblerStatement"},
	"IfStmt":                  {name: "ParseIfStmt"},
	"CaseStmt":                {name: "ParseCaseStmt"},
	"RepeatStmt":              {name: "ParseRepeatStmt"},
	"WhileStmt":               {name: "ParseWhileStmt"},
	"ForStmt":                 {name: "ParseForStmt"},
	"RaiseStmt":               {name: "ParseRaiseStmt"},
	"TryStmt":                 {name: "ParseTryStmt"},
	"ExceptionBlock":          {name: "ParseExceptionBlock"},
	"WithStmt":                {name: "ParseWithStmt"},
	"TypeSection":             {name: "ParseTypeSection", args: []any{true}},
	"TypeSection?":            {name: "ParseTypeSection", args: []any{false}},
	"TypeDecl":                {name: "ParseTypeDecl"},
	"Type":                    {name: "ParseType"},
	"TypeId":                  {name: "ParseTypeId"},
	"CustomPointerType":       {name: "ParseCustomPointerType"},
	"ClassTypeOrClassRefType": {name: "ParseClassTypeOrClassRefType"},
	"ClassType":               {name: "ParseClassType"},
	"ProcedureType":           {name: "ParseProcedureType"},
	"RealType":                {name: "ParseRealType", args: []any{true}},
	"OrdIdent":                {name: "ParseOrdIdent", args: []any{true}},
	"ConstSubrageType":        {name: "ParseConstSubrageType"},
	"EnumeratedType":          {name: "ParseEnumeratedType"},
	"TypeAsOrdinalType":       {name: "ParseTypeAsOrdinalType"},
	"StringType":              {name: "ParseStringType", args: []any{true}},
	"StringOfStringType":      {name: "ParseStringOfStringType"},
	"StrucType":               {name: "ParseStrucType"},
	"ArrayType":               {name: "ParseArrayType"},
	"SetType":                 {name: "ParseSetType"},
	"RecType":                 {name: "ParseRecType"},
	"FileType":                {name: "ParseFileType"},
	"VariantType":             {name: "ParseVariantType", args: []any{true}},
	"QualId":                  {name: "ParseQualId"},
	"UsesClause":              {name: "ParseUsesClause"},
	"VarSection":              {name: "ParseVarSection", args: []any{true}},
	"VarSection?":             {name: "ParseVarSection", args: []any{false}},
	"ThreadVarSection":        {name: "ParseThreadVarSection", args: []any{true}},
	"FunctionDirectives":      {name: "ParseFunctionDirectives"},
	"ConstructorHeading":      {name: "ParseConstructorHeading"},
	"DestructorHeading":       {name: "ParseDestructorHeading"},
	"ClassField":              {name: "ParseClassField"},
	"ClassMethod":             {name: "ParseClassMethod"},
	"PropertyInterface":       {name: "ParsePropertyInterface"},
	"FieldList":               {name: "ParseFieldList", args: []any{token.ReservedWord.HasKeyword("END")}},
	"ExceptionBlockHandlers":  {name: "ParseExceptionBlockHandlers"},
	"CaseSelectors":           {name: "ParseCaseSelectors"},
}

var entryNames = func() []string {
	r := []string{}
	for k, f := range entryPoints {
		if f != nil {
			r = append(r, k)
		}
	}
	sortStrings(r)
	return r
}()

// words by which the constructs begin, so that the token soup gets into them
var entryStarts = map[string][]string{
	"Block": {"", "var", "begin", "type"}, "DeclSections": {"var x :", "type T =", "const c =", "label", "procedure P"},
	"ExportsStmts": {"exports"}, "ExportsStmt": {"exports"}, "LabelDeclSection": {"label"}, "ConstSection": {"const"}, "ConstSection?": {"const", ""},
	"SetConstructor": {"["}, "ProcedureDeclSection": {"procedure", "function"}, "ExportedHeading": {"procedure", "function"}, "FunctionHeading": {"procedure", "function f"},
	"FormalParameters": {"(", "( a :"}, "CompoundStmt": {"begin"}, "CompoundStmt?": {"begin"}, "GotoStatement": {"goto"}, "AssemblerStatement": {"asm"},
	"IfStmt": {"if", "if a then"}, "CaseStmt": {"case", "case a of 1 :"}, "RepeatStmt": {"repeat"}, "WhileStmt": {"while", "while a do"}, "ForStmt": {"for", "for i := 1 to"},
	"RaiseStmt": {"raise"}, "TryStmt": {"try", "try except", "try finally", "try except on"}, "ExceptionBlock": {"", "on"}, "ExceptionBlockHandlers": {"on", "on E :"}, "WithStmt": {"with"},
	"TypeSection": {"type", "type T = class", "type T ="}, "TypeSection?": {"type T ="}, "TypeDecl": {"T =", "T = class"},
	"CustomPointerType": {"^"}, "ClassTypeOrClassRefType": {"class", "class of", "class ( TObject )"}, "ClassType": {"class", "class public", "class property p"}, "ProcedureType": {"procedure", "function ("},
	"EnumeratedType": {"(", "( a"}, "StringOfStringType": {"string", "string ["}, "StringType": {"string"}, "StrucType": {"packed", "array", "record", "set", "file"}, "ArrayType": {"array", "array ["},
	"SetType": {"set of"}, "RecType": {"record", "record case", "record a :"}, "FileType": {"file of"}, "UsesClause": {"uses", "uses A in"}, "VarSection": {"var", "var a :"}, "VarSection?": {"var"},
	"ThreadVarSection": {"threadvar", "threadvar a :"}, "ConstructorHeading": {"constructor"}, "DestructorHeading": {"destructor"}, "ClassMethod": {"procedure", "class function", "constructor"},
	"PropertyInterface": {":", "["}, "FieldList": {"a :", "case"}, "CaseSelectors": {"1 :"}, "FunctionDirectives": {"external", "stdcall ;", "external 'a'"},
}

var soupTokens = func() []string {
	r := []string{"a", "b", "x", "TA", "TB", "Integer", "string", "Char", "self", "E", "TObject", "SysUtils", "P", "true", "1", "-1", "3.14", "0", "'s'", "''", "'x'"}
	for _, s := range symbolList {
		r = append(r, s)
		if strings.Contains("(),.:;=[]^..:=", s) {
			r = append(r, s, s)
		}
	}
	for _, w := range reservedWordList {
		r = append(r, strings.ToLower(w))
	}
	for _, w := range directiveWordList {
		r = append(r, strings.ToLower(w))
	}
	return append(r, "begin", "end", "end", "end", "of", "class", "?", "\"", "'open", "{", "(*")
}()

func genSoup(t *rapid.T, max int) string {
	n := uniform(t, max)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(pick(t, "tok", soupTokens))
		sb.WriteString(pick(t, "gap", []string{" ", " ", " ", "", "\n"}))
	}
	return sb.String()
}

var progStarts = []string{"program P; ", "program P; begin ", "program P; uses SysUtils; ", "program P; type T = ", "program P; type T = class ",
	"program P; var x: ", "program P; const c = ", "program P; procedure Q; ", "program P; uses ", "program P; type TA = Integer; var a: TA; begin a := ",
	"program P; type T = class property ", "program P; type T = record case ", "program P; begin try except on ", "program ", "program P; exports ", "program P; label a; begin a: "}
var unitStarts = []string{"unit U; interface ", "unit U; interface implementation ", "unit U; interface uses A; ", "unit U; interface type T = ", "unit U; interface type T = class ",
	"unit U; interface implementation initialization ", "unit U; interface procedure P; ", "unit U; interface implementation uses A; ", "unit U ", "unit U; interface function ", "unit U; interface implementation var a: "}

func genTotalSoup(t *rapid.T) totalCase {
	c := totalCase{Class: "soup"}
	switch uniform(t, 5) {
	case 0, 1:
		c.Kind = "program"
		c.Text = pick(t, "start", progStarts)
	case 2, 3:
		c.Kind = "unit"
		c.Text = pick(t, "start", unitStarts)
	default:
		c.Kind = pick(t, "entry", entryNames)
		if st := entryStarts[c.Kind]; len(st) > 0 && uniform(t, 4) > 0 {
			c.Text = pick(t, "start", st) + " "
		}
	}
	c.Text += genSoup(t, 16)
	return c
}

// mutateToks changes a token list at a few places.
func mutateToks(t *rapid.T, toks []Tok) []Tok {
	r := append([]Tok{}, toks...)
	n := 1 + uniform(t, 3)
	if uniform(t, 2) > 0 {
		n = 1
	}
	for i := 0; i < n && len(r) > 0; i++ {
		k := uniform(t, len(r)-1)
		switch uniform(t, 8) {
		case 0:
			r = append(r[:k:k], r[k+1:]...)
		case 1:
			r = append(r[:k+1:k+1], r[k:]...)
		case 2, 3:
			r[k] = Tok{S: pick(t, "tok", soupTokens), K: 'v'}
		case 4, 5:
			r = append(r[:k:k], append([]Tok{{S: pick(t, "tok", soupTokens), K: 'v'}}, r[k:]...)...)
		case 6:
			r = r[:k]
		case 7:
			j := uniform(t, len(r)-1)
			r[k], r[j] = r[j], r[k]
		default: // move or copy a piece
			j := uniform(t, len(r)-1)
			m := k + uniform(t, 6)
			if m > len(r) {
				m = len(r)
			}
			piece := append([]Tok{}, r[k:m]...)
			r = append(r[:j:j], append(piece, r[j:]...)...)
		}
	}
	return r
}

func genTotalMutant(t *rapid.T) totalCase {
	g := newG(t, 4+uniform(t, 60))
	g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel, g.opts.classBias = 4, 3, 20, 5
	c := totalCase{Kind: "program", Class: "mutant"}
	if uniform(t, 1) == 0 {
		g.program()
	} else {
		c.Kind = "unit"
		g.unit()
	}
	toks := mutateToks(t, g.cur.toks)
	c.Text = render(toks, drawLayout(t), false).text
	if uniform(t, 5) == 0 && len(c.Text) > 0 {
		// a change of characters on top
		rs := []rune(c.Text)
		k := uniform(t, len(rs)-1)
		switch uniform(t, 2) {
		case 0:
			rs = append(rs[:k:k], rs[k+1:]...)
		case 1:
			rs[k] = pick(t, "rune", []rune("'{}(*);:.=\n \x00a1-"))
		default:
			rs = rs[:k]
		}
		c.Text = string(rs)
		c.Class = "mutant+char"
	}
	return c
}

var nests = []struct{ pre, open, mid, close, post string }{
	{"program P; begin x := ", "(", "1", ")", "; end."},
	{"program P; begin x := ", "not ", "a", "", "; end."},
	{"program P; begin x := ", "a[", "1", "]", "; end."},
	{"program P; begin x := ", "f(", "1", ")", "; end."},
	{"program P; type T = Integer; begin x := ", "T(", "1", ")", "; end."},
	{"program P; type T = Integer; begin x := ", "T + (", "1", ")", "; end."},
	{"program P; begin x := ", "[", "1", "]", "; end."},
	{"program P; begin x := ", "@a[", "1", "]", "; end."},
	{"program P; begin x := a", "^.b", "", "", "; end."},
	{"program P; begin x := 1", " + 1", "", "", "; end."},
	{"program P; begin x := 1", "-1", "", "", "; end."},
	{"program P; begin ", "begin ", "", " end;", " end."},
	{"program P; begin ", "if a then ", "", "", " end."},
	{"program P; begin ", "if a then b else ", "c", "", " end."},
	{"program P; begin ", "while a do ", "", "", " end."},
	{"program P; begin ", "repeat ", "", " until a;", " end."},
	{"program P; begin ", "try ", "", " finally end;", " end."},
	{"program P; begin ", "try ", "", " except on E: T do end;", " end."},
	{"program P; begin ", "case a of 1: ", "", " end;", " end."},
	{"program P; begin ", "for i := 1 to 2 do ", "", "", " end."},
	{"program P; begin ", "with a do ", "", "", " end."},
	{"program P; label l; begin ", "l: ", "", "", " end."},
	{"program P; begin ", ";", "", "", " end."},
	{"program P; var x: ", "array of ", "Integer", "", "; begin end."},
	{"program P; var x: ", "array[1..2] of ", "Integer", "", "; begin end."},
	{"program P; var x: ", "record a: ", "Integer", " end", "; begin end."},
	{"program P; var x: ", "record case Integer of 1: (a: ", "Integer", ") end", "; begin end."},
	{"program P; ", "procedure Q; ", "begin end;", " begin end;", " begin end."},
	{"program P; type ", "T = class(T) end; ", "", "", " begin end."},
	{"program P; ", "var x: Integer; ", "", "", " begin end."},
	{"program P; procedure Q(", "a: Integer; ", "b: Integer", "", "); begin end; begin end."},
	{"program P; uses ", "A, ", "B", "", "; begin end."},
	{"program P; const c = '", "''", "", "", "'; begin end."},
	{"program P; ", "{}", "", "", "begin end."},
	{"program P; type T = class ", "public ", "", "", "end; begin end."},
	{"unit U; interface ", "procedure Q; ", "", "", "implementation end."},
	{"unit U; interface implementation ", "procedure Q; begin end; ", "", "", "initialization end."},
	{"unit U; interface type T = ", "^", "Integer", "", "; implementation end."},
}

// wraps has, for each kind of construct, texts which contain another construct of the same kind (%).
var wraps = []struct {
	pre, mid, post string
	with           []string
}{
	{"program P; type T = Integer; begin x := ", "1", "; end.", []string{"(%)", "not %", "-%", "+ (%)", "a[%]", "a[1, %]", "f(%)", "f(1, %)", "f(%, 1)", "a.b(%)", "a.f(b[%])",
		"a^[%]", "T(%)", "T + (%)", "Integer(%)", "P.T(%)", "[%]", "[1, %]", "[1..%]", "[%..2]", "@a[%]", "1 + %", "1 * %", "% - 1", "% * a", "a = %", "a in [%]", "(a as T) + %", "% is T", "(%).", "a.%"}},
	{"program P; label l; begin ", "x", " end.", []string{"begin % end", "begin %; end", "begin a; % end", "if a then %", "if a then b else %", "if a then begin % end else b", "while a do %",
		"repeat % until a", "repeat a; % until b", "for i := 1 to 2 do %", "for i := f(1) downto a do %", "with a do %", "with a, b do %", "l: %", "case a of 1: % end", "case a of 1, 2..3: b; 4: %; end",
		"case a of 1: b else % end", "try % finally end", "try a finally % end", "try % except end", "try except % end", "try except on E: T do % end", "try a except on T do b; on T do % end",
		"try a except on T do b else % end", "x := %", "f(%)", "raise %"}},
	{"program P; var x: ", "Integer", "; begin end.", []string{"array of %", "array[1..2] of %", "array[(A, B)] of %", "array[1..2, Boolean] of %", "packed array[Byte] of %", "record a: % end", "record a: %; end",
		"record a, b: Integer; c: % end", "packed record a: % end", "record case Integer of 1: (a: %) end", "record case Integer of 1: (a: %;); end", "record case a: Integer of 1: (b: %); 2: () end",
		"class a: %; end", "class(T) private a: %; end", "class procedure m(a: %); end", "class function m(a: %): Integer; virtual; end", "procedure (a: %)", "procedure (a: %) of object",
		"function (a: %): Integer", "function (var a: %; b: Integer): Integer", "array of procedure (const a: array of %)", "^%", "set of %", "file of %"}},
	{"program P; type T = record ", "a: Integer", " end; begin end.", []string{"case Integer of 1: (%)", "case Integer of 1: (%;)", "case a: Integer of 1: (%)", "case a: (B, C) of B: (%)", "case 1..2 of 1: (%)",
		"case Integer of 1: (); 2: (%)", "case Integer of 1, 2: (%);", "a: Integer; case Integer of 1: (%)", "a, b: Byte; case c: Boolean of True: (%)", "a: record % end", "a: record % end;", "a: array of record % end", "a: Byte; %", "a: Byte;; %"}},
	{"program P; ", "", " begin end.", []string{"procedure Q; % begin end;", "procedure Q(a: Integer); % begin end;", "function F: Integer; % begin end;", "function F(var a; b: Byte = 1): Integer; stdcall; % begin end;",
		"var a: Integer; %", "const a = 1; %", "type A = Integer; %", "label l; %", "procedure Q; forward; %", "procedure Q; external 'a'; %", "procedure Q; const a = 1; % begin end;", "procedure Q; begin % end;", "exports a; %"}},
	{"unit U; interface ", "", " implementation end.", []string{"procedure Q; %", "function F: Integer; %", "var a: Integer; %", "threadvar a: Integer; %", "const a = 1; %", "type A = Integer; %", "type A = class; A = class end; %",
		"type A = class property b: Integer; end; %", "procedure Q; overload; %", "procedure Q; external 'a' index 1; %"}},
	{"program P; type C = class ", "", " end; begin end.", []string{"a: Integer; %", "private %", "public a: Byte; %", "procedure m; %", "function m: Byte; virtual; abstract; %", "constructor Create; %", "destructor Destroy; override; %",
		"property p: Byte; %", "property p[i: Byte]: Byte read m; default; %", "class procedure m; %", "property p: Byte index (%)", "a: class % end;", "a: record b: class % end; end;"}},
}

func genTotalWrapped(t *rapid.T) totalCase {
	w := pick(t, "construct", wraps)
	k := 1
	if uniform(t, 1) == 0 {
		k = 1 + uniform(t, 3)
	}
	open, end := "", ""
	for i := 0; i < k; i++ {
		o, e, _ := strings.Cut(pick(t, "wrap", w.with), "%")
		open += o
		end = e + end
	}
	n := 1 + uniform(t, 60)
	if uniform(t, 15) == 0 {
		n = 1 + uniform(t, 3000/k)
	}
	m := n
	if uniform(t, 4) == 0 {
		m = uniform(t, n)
	}
	c := totalCase{Kind: "program", Class: "deep"}
	if strings.HasPrefix(w.pre, "unit") {
		c.Kind = "unit"
	}
	c.Text = w.pre + strings.Repeat(open, n) + w.mid + strings.Repeat(end, m) + w.post
	if uniform(t, 6) == 0 {
		c.Text = c.Text[:uniform(t, len(c.Text))]
	}
	return c
}

func genTotalDeep(t *rapid.T) totalCase {
	if uniform(t, 3) > 0 {
		return genTotalWrapped(t)
	}
	k := pick(t, "nest", nests)
	// Small depths are enough for exponential behaviour, large ones for recursion.
	n := 1 + uniform(t, 60)
	if uniform(t, 3) == 0 {
		n = 1 + uniform(t, 3000)
	}
	m := n
	if uniform(t, 3) == 0 {
		m = uniform(t, n)
	}
	c := totalCase{Kind: "program", Class: "deep"}
	if strings.HasPrefix(k.pre, "unit") {
		c.Kind = "unit"
	}
	c.Text = k.pre + strings.Repeat(k.open, n) + k.mid + strings.Repeat(k.close, m) + k.post
	if uniform(t, 4) == 0 {
		c.Text = c.Text[:uniform(t, len(c.Text))]
	}
	return c
}

func genTotalChars(t *rapid.T) totalCase {
	c := totalCase{Class: "chars", Kind: pick(t, "kind", []string{"program", "unit"})}
	if uniform(t, 2) == 0 {
		c.Kind = pick(t, "entry", entryNames)
	} else if uniform(t, 2) > 0 {
		c.Text = pick(t, "start", progStarts)
		if c.Kind == "unit" {
			c.Text = pick(t, "start", unitStarts)
		}
	}
	c.Text += genLexCase(t).Text
	return c
}

// useTree does with a tree what users do: it is walked, and all names are looked at.
func useTree(root any) error {
	switch r := root.(type) {
	case *ast.Program:
		if r.Ident == nil || r.ProgramBlock == nil || r.ProgramBlock.Block == nil {
			return fmt.Errorf("the program has no name or no block")
		}
		_ = astcore.WalkDown(r, func(n astcore.Node) error { return nil })
	case *ast.Unit:
		if r.Ident == nil || r.InterfaceSection == nil || r.ImplementationSection == nil {
			return fmt.Errorf("the unit has no name, interface or implementation")
		}
		_ = astcore.WalkDown(r, func(n astcore.Node) error { return nil })
	}
	_ = dumpRoot(root, modeRefs)
	return nil
}

func checkTotal(c *totalCase) error {
	if f := entryPoints[c.Kind]; f != nil {
		rs := []rune(c.Text)
		p := parser.NewParser(parser.NewProgramContext(progPath))
		p.SetText(&rs)
		p.NextToken()
		_, err := f.run(p)
		if err != nil {
			_ = err.Error()
		}
		return nil
	}
	var root any
	var err error
	if c.Kind == "unit" {
		u, e := parseUnitText(c.Text)
		if u == nil && e == nil {
			return fmt.Errorf("neither a unit nor an error")
		}
		root, err = u, e
	} else {
		p, e := parseProgramText(c.Text)
		if p == nil && e == nil {
			return fmt.Errorf("neither a program nor an error")
		}
		root, err = p, e
	}
	if err != nil {
		if err.Error() == "" {
			return fmt.Errorf("an error without a message")
		}
		return nil
	}
	return useTree(root)
}

func totalClasses(c *totalCase) []string {
	k := c.Kind
	if entryPoints[k] != nil {
		k = "construct"
	}
	return []string{c.Class, k}
}

func totalNontrivial(c *totalCase) bool {
	n := 0
	for _, t := range refLex([]rune(c.Text)) {
		if t.typ != token.Space && t.typ != token.Comment {
			n++
		}
	}
	return n >= 6
}

// ---- projects of any bytes

type bytesFile struct {
	Path string `json:"path"`
	Data []byte `json:"data"`
}

type bytesCase struct {
	Files []bytesFile `json:"files"`
}

func genBytesCase(t *rapid.T) bytesCase {
	pc := genProject(modePlain, 0, 3, func(g *G) { g.opts.maxDecls, g.opts.bodyFuel = 2, 6 })(t)
	c := bytesCase{}
	for _, f := range pc.Files {
		b, err := sjis([]rune(f.Text))
		if err != nil {
			panic(err)
		}
		c.Files = append(c.Files, bytesFile{Path: f.Path, Data: b})
	}
	n := 1 + uniform(t, 2)
	for i := 0; i < n; i++ {
		f := &c.Files[uniform(t, len(c.Files)-1)]
		if len(f.Data) == 0 {
			continue
		}
		k := uniform(t, len(f.Data)-1)
		b := append([]byte{}, f.Data...)
		switch uniform(t, 7) {
		case 0:
			b = b[:k]
		case 1:
			b = append(b[:k:k], b[k+1:]...)
		case 2:
			b[k] = byte(uniform(t, 255))
		case 3:
			b = append(b[:k:k], append(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "bytes"), b[k:]...)...)
		case 4:
			b = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
		case 5:
			b = append([]byte{0xef, 0xbb, 0xbf}, b...)
		case 6: // the content of another file
			b = c.Files[uniform(t, len(c.Files)-1)].Data
		default: // a word is replaced
			ws := strings.Fields(string(b))
			if len(ws) > 0 {
				ws[uniform(t, len(ws)-1)] = pick(t, "tok", soupTokens)
				b = []byte(strings.Join(ws, " "))
			}
		}
		f.Data = b
	}
	if uniform(t, 9) == 0 && len(c.Files) > 1 {
		k := 1 + uniform(t, len(c.Files)-2)
		c.Files = append(c.Files[:k:k], c.Files[k+1:]...)
	}
	return c
}

func checkBytes(c *bytesCase) error {
	return withProject(nil, func() error {
		for _, f := range c.Files {
			p := filepath.FromSlash(f.Path)
			if d := filepath.Dir(p); d != "." {
				if err := os.MkdirAll(d, 0o755); err != nil {
					return envErr(err)
				}
			}
			if err := os.WriteFile(p, f.Data, 0o644); err != nil {
				return envErr(err)
			}
		}
		prog, err := parser.ParseProgram(progPath)
		if err != nil {
			if err.Error() == "" {
				return fmt.Errorf("an error without a message")
			}
			return nil
		}
		if prog == nil || prog.Program == nil {
			return fmt.Errorf("neither a program nor an error")
		}
		for _, u := range prog.Units {
			if u == nil {
				return fmt.Errorf("a unit of the program is nil")
			}
			if err := useTree(u); err != nil {
				return err
			}
		}
		return useTree(prog.Program)
	})
}

func init() {
	properties = append(properties,
		&Property{ID: "P04", Facets: []Facet{
			facet("mutants", "correct programs and units with 1 to 4 tokens deleted, doubled, replaced, inserted, swapped, moved or cut off, sometimes with a character changed on top; non-trivial: at least 6 tokens", 120000, 6000000,
				genTotalMutant, checkTotal, totalNontrivial, totalClasses),
			facet("soup", "a start of a program, a unit or of any single construct, and up to 16 arbitrary tokens; non-trivial: at least 6 tokens", 250000, 12000000,
				genTotalSoup, checkTotal, totalNontrivial, totalClasses),
			facet("deep", "constructs nested in one another in any combination, or repeated, up to 3000 times, complete or not; non-trivial: at least 6 tokens", 10000, 200000,
				genTotalDeep, checkTotal, totalNontrivial, totalClasses),
			facet("chars", "texts of the tokenizer's generator, alone or after the start of a program or unit; non-trivial: at least 6 tokens", 100000, 5000000,
				genTotalChars, checkTotal, totalNontrivial, totalClasses),
			facet("knots", "up to five types (classes with parents, properties and forward declarations, aliases, pointers, structures) which refer to one another and to themselves in any way, and what can be asked of the resulting types; non-trivial: accepted", 30000, 1500000,
				genKnot, checkKnot, knotNontrivial, totalClasses),
			facet("bytes", "projects with the bytes of one or more files changed, cut off, exchanged or arbitrary, or with a file missing; non-trivial: at least two files", 12000, 600000,
				genBytesCase, checkBytes, func(c *bytesCase) bool { return len(c.Files) > 1 }, nil),
		}},
	)
}
