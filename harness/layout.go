package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P11: layout, comments and letter case do not matter

type twinCase struct {
	Kind  string   `json:"kind"` // program, unit or the name of an entry point
	Class string   `json:"class"`
	A     string   `json:"a"`
	B     string   `json:"b"`
	Feats []string `json:"feats,omitempty"`
}

// realToks gives the tokens of a text without spaces and comments.
func realToks(rs []rune) []refTok {
	var r []refTok
	for _, t := range refLex(rs) {
		if t.typ != token.Space && t.typ != token.Comment && t.typ != token.EOF {
			r = append(r, t)
		}
	}
	return r
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// recase draws another spelling of a word.
func recase(t *rapid.T, s string) string {
	if !isASCII(s) {
		return s
	}
	switch uniform(t, 4) {
	case 0, 1:
		return s
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i := range b {
		if coin.Draw(t, "up") {
			b[i] = byte(unicode.ToUpper(rune(b[i])))
		} else {
			b[i] = byte(unicode.ToLower(rune(b[i])))
		}
	}
	return string(b)
}

var twinGaps = append(append(append([]string{}, gapList...), wideGaps...), textGaps...)

// relayout draws another text of the same tokens.
func relayout(t *rapid.T, text string) (string, bool) {
	rs := []rune(text)
	toks := realToks(rs)
	words := []string{}
	for _, k := range toks {
		s := string(rs[k.start:k.end])
		if k.typ == token.Identifier || k.typ == token.ReservedWord {
			s = recase(t, s)
		}
		words = append(words, s)
	}
	gaps := make([]string, len(words)+1)
	few := uniform(t, 3)
	for i := range gaps {
		if few == 0 || uniform(t, few) == 0 {
			gaps[i] = pick(t, "gap", twinGaps)
		} else {
			gaps[i] = " "
		}
		if i > 0 && strings.HasSuffix(words[i-1], "/") && strings.HasPrefix(gaps[i], "/") {
			gaps[i] = " " + gaps[i]
		}
	}
	if n := len(toks); n > 0 && toks[n-1].typ == token.CharacterString {
		gaps[n] = "" // it may be open
	}
	join := func(sep string) string {
		var sb strings.Builder
		for i, w := range words {
			g := gaps[i]
			if g == "" {
				g = sep
			}
			sb.WriteString(g)
			sb.WriteString(w)
		}
		sb.WriteString(gaps[len(words)])
		return sb.String()
	}
	for _, sep := range []string{"", " "} {
		b := join(sep)
		if sameWords(text, b) {
			return b, true
		}
	}
	return text, false
}

// sameWords: the texts have the same tokens but for the letter case of words.
func sameWords(a, b string) bool {
	ra, rb := []rune(a), []rune(b)
	ta, tb := realToks(ra), realToks(rb)
	if len(ta) != len(tb) {
		return false
	}
	for i := range ta {
		if ta[i].typ != tb[i].typ {
			return false
		}
		x, y := string(ra[ta[i].start:ta[i].end]), string(rb[tb[i].start:tb[i].end])
		if x == y {
			continue
		}
		if ta[i].typ != token.Identifier && ta[i].typ != token.ReservedWord || !isASCII(x) || !strings.EqualFold(x, y) {
			return false
		}
	}
	return true
}

func twinOf(t *rapid.T, kind, class, text string, feats []string) twinCase {
	c := twinCase{Kind: kind, Class: class, A: text, Feats: feats}
	b, ok := relayout(t, text)
	c.B = b
	if !ok {
		c.Class = "same"
	}
	return c
}

func genTwinCorrect(t *rapid.T) twinCase {
	p := mixedProfile()
	if coin.Draw(t, "refs") {
		p = refsProfile()
	}
	if uniform(t, 3) == 0 {
		p = classProfile()
	}
	s := genSrc(modePlain, p)(t)
	return twinOf(t, s.Kind, "correct", s.Text, s.Feats)
}

func genTwinMutant(t *rapid.T) twinCase {
	c := genTotalMutant(t)
	return twinOf(t, c.Kind, c.Class, c.Text, nil)
}

func genTwinSoup(t *rapid.T) twinCase {
	c := genTotalSoup(t)
	return twinOf(t, c.Kind, c.Class, c.Text, nil)
}

// tokenDump is the tree with the references shown as numbers of tokens.
func tokenDump(root any, text string) string {
	no := map[int]int{}
	for i, t := range realToks([]rune(text)) {
		no[t.start] = i
	}
	d := &dumper{mode: modeRefs, own: ownership(root), tokno: no}
	switch r := root.(type) {
	case *ast.Program:
		return d.program(r)
	case *ast.Unit:
		return d.unit(r)
	}
	return ""
}

var errPlace = regexp.MustCompile(`at ([^ ]*):(\d+):(\d+)$`)

// errToken tells the number of the token which an error names, or -1.
func errToken(err error, text string) int {
	m := errPlace.FindStringSubmatch(err.Error())
	if m == nil {
		return -1
	}
	line, _ := strconv.Atoi(m[2])
	col, _ := strconv.Atoi(m[3])
	rs := []rune(text)
	toks := realToks(rs)
	for i, t := range toks {
		l, c := lineCol(rs, t.start)
		// The sign of a numeral may be an operator of its own.
		if l == line && (c == col || (t.typ == token.NumeralInt || t.typ == token.NumeralReal) && c+1 == col && rs[t.start] == '-') {
			return i
		}
	}
	if l, c := lineCol(rs, len(rs)); l == line && c == col {
		return len(toks)
	}
	return -2
}

func lineCol(rs []rune, i int) (int, int) {
	line, last := 1, -1
	for k := 0; k < i && k < len(rs); k++ {
		if rs[k] == '\n' && k > 0 || rs[k] == '\n' && !leadingLF() {
			line++
			last = k
		}
	}
	return line, i - last
}

func checkTwin(c *twinCase) error {
	var ra, rb any
	var ea, eb error
	if f := entryPoints[c.Kind]; f != nil {
		run := func(text string) error {
			rs := []rune(text)
			p := parser.NewParser(parser.NewProgramContext(progPath))
			p.SetText(&rs)
			p.NextToken()
			_, err := f.run(p)
			return err
		}
		ea, eb = run(c.A), run(c.B)
	} else {
		ra, ea = parseText(c.Kind, c.A)
		rb, eb = parseText(c.Kind, c.B)
	}
	if (ea == nil) != (eb == nil) {
		return fmt.Errorf("one layout is accepted, another one isn't: %v / %v\n--- A\n%s\n--- B\n%s", ea, eb, c.A, c.B)
	}
	if ea != nil {
		if a, b := errToken(ea, c.A), errToken(eb, c.B); a != b {
			return fmt.Errorf("the errors are at different tokens (%d and %d): %v / %v\n--- A\n%s\n--- B\n%s", a, b, ea, eb, c.A, c.B)
		}
		return nil
	}
	if ra == nil {
		return nil
	}
	return diffErr("the tree of the second layout", tokenDump(rb, c.B), tokenDump(ra, c.A))
}

func twinNontrivial(c *twinCase) bool {
	return c.Class != "same" && c.A != c.B && len(realToks([]rune(c.A))) >= 8
}

func twinClasses(c *twinCase) []string {
	k := c.Kind
	if entryPoints[k] != nil {
		k = "construct"
	}
	return append([]string{c.Class, k}, c.Feats...)
}

// ---------------------------------------------------------------------------
// P12: syntax errors

type wrongCase struct {
	Kind  string   `json:"kind"`
	Class string   `json:"class"`
	What  string   `json:"what"`
	Text  string   `json:"text"`
	At    [2]int   `json:"at"` // where the error has to be, or 0
	Or    [2]int   `json:"or"` // where it may be as well, or 0
	Feats []string `json:"feats,omitempty"`
}

var strayWords = strings.Fields("( ) [ ] begin end then do of until to downto repeat try finally except")

func genWrong(t *rapid.T) wrongCase {
	g := newG(t, 4+uniform(t, 100))
	g.opts.maxDecls, g.opts.exprMax, g.opts.bodyFuel, g.opts.classBias = 5, 3, 30, 4
	c := wrongCase{Kind: "program"}
	if uniform(t, 1) == 0 {
		g.program()
	} else {
		c.Kind = "unit"
		g.unit()
	}
	c.Feats = g.featList()
	toks := g.cur.toks
	last := len(toks) - 1 // the final '.'
	inAsm := func(k int) bool {
		return toks[k].Asm || k > 0 && (toks[k-1].Asm || strings.EqualFold(toks[k-1].S, "asm"))
	}
	choose := func(ok func(k int) bool) int {
		var r []int
		for k := range toks {
			if ok(k) {
				r = append(r, k)
			}
		}
		if len(r) == 0 {
			return -1
		}
		return r[uniform(t, len(r)-1)]
	}
	insert := func(k int, x Tok) []Tok {
		return append(toks[:k:k], append([]Tok{x}, toks[k:]...)...)
	}
	bad := Tok{S: pick(t, "char", []string{"?", "!", "\"", "%", "~", "|", "`", "\\"}), K: 'p'}
	at, or := -1, -1
	switch uniform(t, 10) {
	case 0:
		k := choose(func(k int) bool { return !inAsm(k) && !toks[k].Soft })
		c.Class, c.What = "character for token", toks[k].S
		toks = append(append(toks[:k:k], bad), toks[k+1:]...)
		at = k
	case 1:
		k := choose(func(k int) bool { return !inAsm(k) && !toks[k].Soft })
		c.Class, c.What = "character before token", toks[k].S
		toks = insert(k, bad)
		at = k
	case 2, 3:
		k := choose(func(k int) bool { return toks[k].Must && !toks[k].Asm })
		c.Class, c.What = "missing token", toks[k].S
		toks = append(toks[:k:k], toks[k+1:]...)
	case 4:
		k := uniform(t, last)
		c.Class, c.What = "cut off", toks[k].S
		toks = toks[:k:k]
	case 5:
		k := choose(func(k int) bool { return toks[k].K == 'i' && !inAsm(k) && !toks[k].Soft })
		c.Class, c.What = "reserved word for name", toks[k].S
		toks = append(append(toks[:k:k], Tok{S: pick(t, "word", []string{"then", "do", "THEN", "Downto"}), K: 'v'}), toks[k+1:]...)
		at = k
	case 6, 7:
		// A literal for a word or symbol which isn't an operand
		k := choose(func(k int) bool {
			x := toks[k]
			switch {
			case x.K != 'k' && x.K != 'p' || inAsm(k) || x.Soft || strings.EqualFold(x.S, "nil") || strings.EqualFold(x.S, "string"):
				return false
			case k > 0 && toks[k-1].K == 's' || k < last && toks[k+1].K == 's':
				return false // they would be one literal
			case k < last && (toks[k+1].S == "-" || toks[k+1].S == "+" || toks[k+1].K == 'n' && toks[k+1].S[0] == '-') && strings.Contains(" + - not ", " "+strings.ToLower(x.S)+" "):
				return false // not -x: the sign would be an operator
			case k > 0 && (x.S == ";" && toks[k-1].K == 'k' || strings.EqualFold(toks[k-1].S, "raise")):
				return false // external 'x'
			}
			return true
		})
		if k < 0 {
			c.Class = "cut off"
			toks = toks[:last:last]
			break
		}
		c.Class, c.What = "literal for token", toks[k].S
		if !strings.Contains(" + - not @ ( [ ", " "+strings.ToLower(toks[k].S)+" ") && !(k > 0 && strings.Contains("([", toks[k-1].S)) && !(k < last && strings.Contains("=+-", toks[k+1].S[:1])) {
			at, or = k, k+1
		}
		toks = append(append(toks[:k:k], Tok{S: pick(t, "literal", []string{"'x'", "''", "'it''s'"}), K: 's'}), toks[k+1:]...)
	case 8:
		// A bracket of another kind
		k := choose(func(k int) bool { return !inAsm(k) && len(toks[k].S) == 1 && strings.Contains("()[]", toks[k].S) })
		if k < 0 {
			c.Class = "cut off"
			toks = toks[:last:last]
			break
		}
		c.Class, c.What = "other bracket", toks[k].S
		var others []string
		for _, s := range []string{"(", ")", "[", "]", ""} {
			if s != toks[k].S {
				others = append(others, s)
			}
		}
		x := toks[k]
		x.S = pick(t, "bracket", others)
		if x.S == "" {
			toks = append(toks[:k:k], toks[k+1:]...)
		} else {
			toks = append(append(toks[:k:k], x), toks[k+1:]...)
		}
	default:
		x := pick(t, "stray", strayWords)
		k := choose(func(k int) bool {
			if x == "end" && k < last && (toks[k].S == "." || toks[k].S == ";" && (toks[k-1].S == ")" || toks[k-1].S == "class")) {
				return false // the end of the program, or of a class
			}
			return !inAsm(k)
		})
		c.Class, c.What = "stray token", x
		kind := byte('v')
		if strings.Contains("()[]", x) {
			kind = 'p'
		}
		toks = insert(k, Tok{S: x, K: kind})
	}
	r := render(toks, drawLayout(t), false)
	c.Text = r.text
	if at >= 0 {
		c.At = [2]int{r.pos[at].line, r.pos[at].col}
	}
	if or >= 0 && or < len(r.pos) {
		c.Or = [2]int{r.pos[or].line, r.pos[or].col}
	}
	return c
}

func checkWrong(c *wrongCase) error {
	_, err := parseText(c.Kind, c.Text)
	if err == nil {
		return fmt.Errorf("a %s with a syntax error (%s: %s) is accepted\n%s", c.Kind, c.Class, c.What, c.Text)
	}
	if c.At[0] == 0 {
		return nil
	}
	path := progPath
	if c.Kind == "unit" {
		path = unitPath
	}
	want := fmt.Sprintf("at %s:%d:%d", path, c.At[0], c.At[1])
	if c.Or[0] != 0 && strings.HasSuffix(err.Error(), fmt.Sprintf("at %s:%d:%d", path, c.Or[0], c.Or[1])) {
		return nil
	}
	if !strings.HasSuffix(err.Error(), want) {
		return fmt.Errorf("the error (%s: %s) isn't located %s: %v\n%s", c.Class, c.What, want, err, c.Text)
	}
	return nil
}

// Errors of any wrong text are at a token.
func checkPlace(c *totalCase) error {
	if entryPoints[c.Kind] != nil {
		return nil
	}
	_, err := parseText(c.Kind, c.Text)
	if err == nil {
		return nil
	}
	if k := errToken(err, c.Text); k == -2 {
		return fmt.Errorf("the error names a place where no token begins: %v\n%s", err, c.Text)
	}
	return nil
}

func init() {
	properties = append(properties,
		&Property{ID: "P11", Facets: []Facet{
			facet("correct", "correct programs and units and another layout and spelling of the same tokens; non-trivial: the texts differ and have at least 8 tokens", 30000, 1500000,
				genTwinCorrect, checkTwin, twinNontrivial, twinClasses),
			facet("mutants", "programs and units with tokens deleted, inserted, replaced ... and another layout and spelling of the same tokens; non-trivial: the texts differ and have at least 8 tokens", 60000, 3000000,
				genTwinMutant, checkTwin, twinNontrivial, twinClasses),
			facet("soup", "a start of a program, unit or construct with arbitrary tokens, and another layout and spelling of the same tokens; non-trivial: the texts differ and have at least 8 tokens", 100000, 5000000,
				genTwinSoup, checkTwin, twinNontrivial, twinClasses),
		}},
		&Property{ID: "P12", Facets: []Facet{
			facet("injected", "correct programs and units with one syntax error at a random place; non-trivial: more than 20 tokens", 80000, 4000000,
				genWrong, checkWrong, func(c *wrongCase) bool { return len(realToks([]rune(c.Text))) > 20 }, func(c *wrongCase) []string { return append([]string{c.Kind, c.Class}, c.Feats...) }),
			facet("grammar", "programs and units with tokens deleted, doubled, swapped, inserted, replaced: what a recognizer of a superset of the grammar doesn't accept is rejected, no later than at the first token which can't be there; non-trivial: not accepted by the recognizer, at least 8 tokens", 40000, 2000000,
				genGrammar, checkGrammar, grammarNontrivial, totalClasses),
			facet("project", "projects of which one file has tokens deleted, inserted, replaced ..., often next to a name qualified by a unit: rejected if the recognizer doesn't accept the file; non-trivial: it doesn't", 12000, 600000,
				genWrongProject, checkWrongProject, func(c *wrongProject) bool { ok, _ := c.recognized(); return !ok }, func(c *wrongProject) []string { return append([]string{c.Class}, c.Feats...) }),
			facet("place", "programs and units with 1 to 4 tokens changed: an error which names a place names one where a token begins; non-trivial: at least 6 tokens", 60000, 3000000,
				genTotalMutant, checkPlace, totalNontrivial, totalClasses),
		}},
	)
}
