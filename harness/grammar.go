package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P12: a recognizer for the grammar, independent of the parser. It accepts
// more than the language (it knows nothing about declarations, and it takes
// forms of Object Pascal which the parser doesn't know), so that what it
// doesn't accept has to be rejected.
//
// Notation: one rule per line, NAME: alternatives separated by |. A word in
// lower case is a rule or id, str, num (a numeral), snum (one with a sign), any
// (any token), notend (any but END), dir (a directive); one in upper case is a reserved word; one in
// quotes is a symbol; @WORD is an identifier with that spelling. x? x* are what they
// are everywhere.

const grammarText = `
program: PROGRAM id progparms? ';' uses? block '.' any*
progparms: '(' ids ')'
ids: id | ids ',' id
unit: UNIT id portability? ';' INTERFACE uses? intfdecl* IMPLEMENTATION uses? declsemi* exports* ';'? init? END '.' any*
init: INITIALIZATION stmts | INITIALIZATION stmts FINALIZATION stmts | BEGIN stmts
portability: @PLATFORM | @DEPRECATED | LIBRARY
uses: USES useslist ';'
useslist: usesitem | useslist ',' usesitem
usesitem: id | id IN str
intfdecl: consts | types | vars | threadvars | head ';' dirs
declsemi: decl ';'?
decl: LABEL labels ';' | consts | types | vars | threadvars | head ';' dirs elsewhere dirs | head ';' dirs block ';'
elsewhere: @FORWARD ';' | @EXTERNAL ';' | @EXTERNAL expr ';' | @EXTERNAL expr @NAME expr ';' | @EXTERNAL expr @INDEX expr ';'
labels: label | labels ',' label
label: id | num
block: declsemi* exports* body exports*
body: BEGIN stmts END | asm
asm: ASM notend* END
exports: EXPORTS exportlist ';'
exportlist: export | exportlist ',' export
export: id exportopt*
exportopt: @NAME expr | @INDEX expr

consts: CONST constlist
constlist: const ';' | constlist const ';'
const: id '=' constval portability? | id ':' type '=' constval portability?
constval: expr | '(' constvals ')' | '(' fieldvals ')'
constvals: constval | constvals ',' constval
fieldvals: fieldval | fieldvals ';' fieldval
fieldval: id ':' constval
types: TYPE typelist
typelist: typedecl ';' | typelist typedecl ';'
typedecl: id '=' TYPE? type portability?
vars: VAR varlist
varlist: var ';' | varlist var ';'
var: ids ':' type absolute? init1? portability?
absolute: @ABSOLUTE expr
init1: '=' constval
threadvars: THREADVAR tvlist
tvlist: ids ':' type ';' | tvlist ids ':' type ';'

head: PROCEDURE qualname parms? | FUNCTION qualname parms? ':' typeid
qualname: id | qualname '.' id
parms: '(' ')' | '(' parmlist ')'
parmlist: parm | parmlist ';' parm
parm: parmopt? ids parmtype? parmval?
parmopt: VAR | CONST | OUT
parmtype: ':' type | ':' ARRAY OF CONST
parmval: '=' expr
dirs: dirsemi*
dirsemi: dir ';' | @EXTERNAL ';' | @EXTERNAL expr ';' | @EXTERNAL expr @NAME expr ';' | @EXTERNAL expr @INDEX expr ';' | @MESSAGE expr ';'

typeid: id | id '.' id | STRING
type: typeid | STRING '[' expr ']' | expr '..' expr | '(' enums ')' | '^' typeid | PACKED? struct | proctype | class
enums: enum | enums ',' enum
enum: id | id '=' expr
struct: ARRAY indexes? OF type PACKED? | SET OF type | RECORD fields END | FILE OF typeid | FILE
indexes: '[' typelist1 ']'
typelist1: type | typelist1 ',' type
fields: | fieldlist ';'? | fieldlist ';' variants | variants
fieldlist: field | fieldlist ';' field
field: ids ':' type
variants: CASE tag? type OF | CASE tag? type OF varianlist ';'?
tag: id ':'
varianlist: variant | varianlist ';' variant
variant: exprs ':' '(' fields ')'
proctype: PROCEDURE parms? ofobject? | FUNCTION parms? ':' typeid ofobject?
ofobject: OF OBJECT
class: CLASS | CLASS OF typeid | CLASS heritage | CLASS heritage? section1 section* unended? END
heritage: '(' typeids ')'
typeids: typeid | typeids ',' typeid
section1: members | section
section: visibility members
visibility: @PRIVATE | @PROTECTED | @PUBLIC | @PUBLISHED
members: fieldpart? member*
fieldpart: fieldlist ';'
member: CLASS? mhead ';' ';'? | CLASS? mhead ';' mdirlist ';' ';'? | property ';'
unended: fieldlist | CLASS? mhead | CLASS? mhead ';' mdirlist | property
mhead: PROCEDURE id parms? | FUNCTION id parms? ':' typeid | CONSTRUCTOR id parms? | DESTRUCTOR id parms?
mdirlist: mdir | mdirlist ';' mdir
mdir: dir | @MESSAGE expr
property: PROPERTY id propintf? propindex? propread? propwrite? propstored? propdefault? propimpl? portability?
propintf: ':' typeid | '[' parmlist ']' ':' typeid | '[' ']' ':' typeid
propindex: @INDEX expr
propread: @READ designator
propwrite: @WRITE designator
propstored: @STORED designator
propdefault: @DEFAULT expr | @NODEFAULT
propimpl: @IMPLEMENTS typeids

stmts: stmt | stmts ';' stmt
stmt: unlabelled | label ':' unlabelled
unlabelled: | designator | designator ':=' expr | INHERITED | INHERITED designator | GOTO label | BEGIN stmts END | asm | if | case | REPEAT stmts UNTIL expr | WHILE expr DO stmt | for | WITH exprs DO stmt | try | raise
if: IF expr THEN stmt | IF expr THEN stmt ELSE stmt
case: CASE expr OF selectors ';'? END | CASE expr OF selectors ';'? ELSE stmts END
selectors: selector | selectors ';' selector
selector: elems ':' stmt
for: FOR designator ':=' expr TO expr DO stmt | FOR designator ':=' expr DOWNTO expr DO stmt
try: TRY stmts FINALLY stmts END | TRY stmts EXCEPT stmts END | TRY stmts EXCEPT handlers ';'? ';'? END | TRY stmts EXCEPT handlers ';'? ELSE stmts END
handlers: handler | handlers ';'? handler
handler: @ON type DO stmt | @ON id ':' type DO stmt
raise: RAISE expr? address?
address: @AT expr

exprs: expr | exprs ',' expr
expr: sexpr | expr relop sexpr
relop: '=' | '<>' | '<' | '>' | '<=' | '>=' | IN | IS
sexpr: term | sign term | sexpr addop term | sexpr sterm
sign: '+' | '-'
addop: '+' | '-' | OR | XOR
term: factor | term mulop factor
sterm: snum | sterm mulop factor
mulop: '*' | '/' | DIV | MOD | AND | SHL | SHR | AS
factor: NIL | str | num | designator | '@' factor | NOT factor | '(' expr ')' | '[' ']' | '[' elems ']' | STRING '(' expr ')' | INHERITED designator
elems: elem | elems ',' elem
elem: expr | expr '..' expr
designator: id | designator '.' id | designator '^' | designator '[' exprs ']' | designator '(' ')' | designator '(' exprs ')'
`

type gsym struct {
	rule int    // the number of a rule, or -1
	term string // a terminal
}

type gprod struct {
	rule int
	rhs  []gsym
}

type cfg struct {
	names  map[string]int
	prods  []gprod
	byRule [][]int // productions of a rule
	null   []bool
}

var theGrammar = buildGrammar(grammarText)

func buildGrammar(text string) *cfg {
	g := &cfg{names: map[string]int{}}
	rule := func(n string) int {
		k, ok := g.names[n]
		if !ok {
			k = len(g.byRule)
			g.names[n] = k
			g.byRule = append(g.byRule, nil)
		}
		return k
	}
	add := func(r int, rhs []gsym) {
		g.byRule[r] = append(g.byRule[r], len(g.prods))
		g.prods = append(g.prods, gprod{r, rhs})
	}
	terms := map[string]bool{"id": true, "str": true, "num": true, "snum": true, "any": true, "notend": true, "dir": true}
	defined := map[string]bool{}
	for _, line := range strings.Split(text, "\n") {
		k := strings.Index(line, ": ")
		if k < 0 {
			continue
		}
		lhs := rule(line[:k])
		defined[line[:k]] = true
		for _, alt := range strings.Split(" "+line[k+2:]+" ", " | ") {
			var rhs []gsym
			for _, w := range strings.Fields(alt) {
				if w == "|" {
					continue // an empty first alternative
				}
				rep := byte(0)
				if n := len(w); n > 1 && (w[n-1] == '?' || w[n-1] == '*') {
					rep, w = w[n-1], w[:n-1]
				}
				var s gsym
				if w[0] == '\'' {
					s = gsym{-1, w[1 : len(w)-1]}
				} else if w[0] == '@' || strings.ToUpper(w) == w || terms[w] {
					s = gsym{-1, w}
				} else {
					s = gsym{rule(w), ""}
				}
				if rep != 0 {
					n := w + string(rep)
					if !defined[n] {
						defined[n] = true
						r := rule(n)
						add(r, nil)
						if rep == '?' {
							add(r, []gsym{s})
						} else {
							add(r, []gsym{{r, ""}, s})
						}
					}
					s = gsym{rule(n), ""}
				}
				rhs = append(rhs, s)
			}
			add(lhs, rhs)
		}
	}
	for n := range g.names {
		if !defined[n] {
			panic("grammar: " + n)
		}
	}
	g.null = make([]bool, len(g.byRule))
	for changed := true; changed; {
		changed = false
		for _, p := range g.prods {
			ok := !g.null[p.rule]
			for _, s := range p.rhs {
				ok = ok && s.rule >= 0 && g.null[s.rule]
			}
			if ok {
				g.null[p.rule] = true
				changed = true
			}
		}
	}
	return g
}

type gword struct {
	typ  token.Type
	text string // upper case, of a word or symbol
	sign bool
}

var grammarDirs = func() map[string]bool {
	r := map[string]bool{}
	for _, w := range append(append([]string{"VIRTUAL", "ASSEMBLER"}, directiveSet...), portabilitySet...) {
		r[w] = true
	}
	return r
}()

func (s gsym) matches(w *gword) bool {
	switch s.term {
	case "id":
		return w.typ == token.Identifier
	case "str":
		return w.typ == token.CharacterString
	case "num":
		return w.typ == token.NumeralInt || w.typ == token.NumeralReal
	case "snum":
		return (w.typ == token.NumeralInt || w.typ == token.NumeralReal) && w.sign
	case "any":
		return true
	case "notend":
		return !(w.typ == token.ReservedWord && w.text == "END")
	case "dir":
		return (w.typ == token.Identifier || w.typ == token.ReservedWord) && grammarDirs[w.text]
	}
	if s.term[0] == '@' && len(s.term) > 1 {
		return w.typ == token.Identifier && w.text == s.term[1:]
	}
	return (w.typ == token.ReservedWord || w.typ == token.SpecialSymbol) && w.text == s.term
}

type gitem struct{ prod, dot, from int }

// recognize tells whether the words derive from the rule. If not, bad is the
// number of the first word which can't be there, or the number of words if more are missing.
func (g *cfg) recognize(start string, words []gword) (ok bool, bad int) {
	root := g.names[start]
	n := len(words)
	sets := make([][]gitem, n+1)
	// The items of each set which wait for a rule
	waits := make([]map[int][]gitem, n+1)
	seen := map[gitem]bool{}
	push := func(k int, it gitem) {
		if !seen[it] {
			seen[it] = true
			sets[k] = append(sets[k], it)
		}
	}
	for _, p := range g.byRule[root] {
		push(0, gitem{p, 0, 0})
	}
	var next []gitem
	for k := 0; k <= n; k++ {
		if k > 0 {
			clear(seen)
			for _, it := range next {
				push(k, it)
			}
			next = next[:0]
			if len(sets[k]) == 0 {
				return false, k - 1
			}
		}
		waits[k] = map[int][]gitem{}
		predicted := map[int]bool{}
		for i := 0; i < len(sets[k]); i++ {
			it := sets[k][i]
			p := &g.prods[it.prod]
			if it.dot == len(p.rhs) {
				for _, w := range waits[it.from][p.rule] {
					push(k, gitem{w.prod, w.dot + 1, w.from})
				}
				continue
			}
			s := p.rhs[it.dot]
			if s.rule < 0 {
				if k < n && s.matches(&words[k]) {
					next = append(next, gitem{it.prod, it.dot + 1, it.from})
				}
				continue
			}
			waits[k][s.rule] = append(waits[k][s.rule], it)
			if !predicted[s.rule] {
				predicted[s.rule] = true
				for _, q := range g.byRule[s.rule] {
					push(k, gitem{q, 0, k})
				}
			}
			if g.null[s.rule] {
				push(k, gitem{it.prod, it.dot + 1, it.from})
			}
		}
	}
	for _, it := range sets[n] {
		if it.from == 0 && g.prods[it.prod].rule == root && it.dot == len(g.prods[it.prod].rhs) {
			return true, -1
		}
	}
	return false, n
}

func grammarWords(text string) []gword {
	rs := []rune(text)
	var r []gword
	for _, t := range realToks(rs) {
		s := string(rs[t.start:t.end])
		w := gword{typ: t.typ, sign: s[0] == '-' || s[0] == '+'}
		if t.typ == token.Identifier || t.typ == token.ReservedWord || t.typ == token.SpecialSymbol {
			w.text = strings.ToUpper(s)
		}
		r = append(r, w)
	}
	return r
}

// genGrammar gives programs and units, most of them with a change.
func genGrammar(t *rapid.T) totalCase {
	g := newG(t, 4+uniform(t, 50))
	g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel, g.opts.classBias = 3, 2, 16, 4
	c := totalCase{Kind: "program"}
	if uniform(t, 1) == 0 {
		g.program()
	} else {
		c.Kind = "unit"
		g.unit()
	}
	var toks []Tok
	c.Class, toks = changeToks(t, g.cur.toks)
	c.Text = render(toks, drawLayout(t), false).text
	return c
}

// changeToks changes a correct token list, or leaves it as it is.
func changeToks(t *rapid.T, correct []Tok) (class string, toks []Tok) {
	toks = append([]Tok{}, correct...)
	k := uniform(t, len(toks)-1)
	run := func(max int) int {
		e := k + 1 + uniform(t, max-1)
		if e > len(toks) {
			e = len(toks)
		}
		return e
	}
	switch uniform(t, 8) {
	case 0:
		class = "correct"
	case 1:
		class = "run deleted"
		toks = append(toks[:k:k], toks[run(5):]...)
	case 2:
		class = "run doubled"
		e := run(4)
		toks = append(toks[:e:e], toks[k:]...)
	case 3:
		class = "neighbours swapped"
		if k+1 < len(toks) {
			toks[k], toks[k+1] = toks[k+1], toks[k]
		}
	case 4:
		class = "token of the text inserted"
		toks = append(toks[:k:k], append([]Tok{toks[uniform(t, len(toks)-1)]}, toks[k:]...)...)
	case 5:
		class = "token of the text put for another"
		toks[k] = toks[uniform(t, len(toks)-1)]
	case 6:
		class = "token replaced"
		toks[k] = Tok{S: pick(t, "tok", soupTokens), K: 'v'}
	case 7:
		class = "token inserted"
		toks = append(toks[:k:k], append([]Tok{{S: pick(t, "tok", soupTokens), K: 'v'}}, toks[k:]...)...)
	default:
		class = "several changes"
		toks = mutateToks(t, toks)
	}
	return class, toks
}

func checkGrammar(c *totalCase) error {
	words := grammarWords(c.Text)
	ok, bad := theGrammar.recognize(c.Kind, words)
	if ok {
		return nil
	}
	if c.Class == "correct" {
		return fmt.Errorf("the recognizer doesn't know a correct %s: token %d\n%s", c.Kind, bad, c.Text)
	}
	_, err := parseText(c.Kind, c.Text)
	if err == nil {
		return fmt.Errorf("a %s is accepted which isn't one: token %d (%s) can't be there\n%s", c.Kind, bad, wordAt(c.Text, bad), c.Text)
	}
	if k := errToken(err, c.Text); k > bad {
		return fmt.Errorf("the error is reported for token %d, but token %d (%s) can't be there: %v\n%s", k, bad, wordAt(c.Text, bad), err, c.Text)
	}
	return nil
}

func wordAt(text string, k int) string {
	rs := []rune(text)
	toks := realToks(rs)
	if k < len(toks) {
		return string(rs[toks[k].start:toks[k].end])
	}
	return "the end"
}

func grammarNontrivial(c *totalCase) bool {
	if len(realToks([]rune(c.Text))) < 8 {
		return false
	}
	ok, _ := theGrammar.recognize(c.Kind, grammarWords(c.Text))
	return !ok
}

// ---- one file of a project

type wrongProject struct {
	Files   []projFile `json:"files"`
	Changed int        `json:"changed"` // the file which may be wrong
	Class   string     `json:"class"`
	Feats   []string   `json:"feats,omitempty"`
}

func genWrongProject(t *rapid.T) wrongProject {
	g := newG(t, 0)
	g.opts = gopts{exprMax: 2, classes: true, classBias: 3, decls: "cvttrrw", maxDecls: 2, exports: true, bodyFuel: 12}
	units, _, _ := g.project(1+uniform(t, 2), 8+uniform(t, 24))
	c := wrongProject{Changed: uniform(t, len(units))}
	files := []int{0}
	for _, u := range units {
		files = append(files, u.no)
	}
	for i, no := range files {
		toks := g.files[no].toks
		if i == c.Changed {
			// Mostly after a name of another unit: that is what a single file can't have.
			if k := qualifiedAt(t, toks); k >= 0 && uniform(t, 1) == 0 {
				c.Class, toks = changeNear(t, toks, k)
			} else {
				c.Class, toks = changeToks(t, toks)
			}
		}
		f := projFile{Path: progPath, Text: render(toks, drawLayout(t), true).text}
		if i > 0 {
			u := units[i-1]
			f.Path, f.Unit = filepath.ToSlash(filepath.Clean(u.file)), u.name
		}
		c.Files = append(c.Files, f)
	}
	c.Feats = g.featList()
	return c
}

// qualifiedAt draws the index of a name which is qualified by a unit, or -1.
func qualifiedAt(t *rapid.T, toks []Tok) int {
	var r []int
	for k := 2; k < len(toks); k++ {
		if toks[k-1].S == "." && strings.HasPrefix(strings.ToLower(toks[k-2].S), "unit") {
			r = append(r, k)
		}
	}
	if len(r) == 0 {
		return -1
	}
	return r[uniform(t, len(r)-1)]
}

func changeNear(t *rapid.T, toks []Tok, k int) (string, []Tok) {
	k += uniform(t, 5) - 1
	if k >= len(toks) {
		k = len(toks) - 1
	}
	r := append([]Tok{}, toks...)
	switch uniform(t, 2) {
	case 0:
		return "near a qualified name: deleted", append(r[:k:k], r[k+1:]...)
	case 1:
		r[k] = Tok{S: pick(t, "tok", soupTokens), K: 'v'}
		return "near a qualified name: replaced", r
	}
	return "near a qualified name: inserted", append(r[:k:k], append([]Tok{{S: pick(t, "tok", soupTokens), K: 'v'}}, r[k:]...)...)
}

func (c *wrongProject) recognized() (ok bool, bad int) {
	kind := "unit"
	if c.Changed == 0 {
		kind = "program"
	}
	return theGrammar.recognize(kind, grammarWords(c.Files[c.Changed].Text))
}

func checkWrongProject(c *wrongProject) error {
	ok, bad := c.recognized()
	f := c.Files[c.Changed]
	if !ok && c.Class == "correct" {
		return fmt.Errorf("the recognizer doesn't know a correct file: token %d\n%s", bad, f.Text)
	}
	return withProject(c.Files, func() error {
		prog, err := parser.ParseProgram(progPath)
		switch {
		case (prog == nil) == (err == nil):
			return fmt.Errorf("neither or both of a program and an error (%v)", err)
		case ok:
			return nil
		case err == nil:
			return fmt.Errorf("a project is accepted although %s isn't correct: token %d (%s) can't be there\n%s", f.Path, bad, wordAt(f.Text, bad), f.Text)
		}
		m := errPlace.FindStringSubmatch(err.Error())
		if m == nil || filepath.ToSlash(filepath.Clean(filepath.FromSlash(strings.ReplaceAll(m[1], `\`, "/")))) != f.Path {
			return nil // another file can't do with what this one declares
		}
		if k := errToken(err, f.Text); k > bad {
			return fmt.Errorf("the error is reported for token %d of %s, but token %d (%s) can't be there: %v\n%s", k, f.Path, bad, wordAt(f.Text, bad), err, f.Text)
		}
		return nil
	})
}
