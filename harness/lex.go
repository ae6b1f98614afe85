package main

import (
	"fmt"
	"strings"
	"sync"
	"unicode"

	"github.com/akm/tparser/log"
	"github.com/akm/tparser/runes"
	"github.com/akm/tparser/token"
	"pgregory.net/rapid"
)

type nolog struct{}

func (nolog) Printf(string, ...interface{}) {}

func silenceLog() { log.SetLogger(nolog{}) }

// ---------------------------------------------------------------------------
// Generated texts for the tokenizer

type lexCase struct {
	Text  string `json:"text"`
	Class string `json:"class"`
	// Clones: indexes of tokens before which the tokenizer is cloned.
	Clones []int `json:"clones,omitempty"`
}

var reservedWordList = strings.Fields(`AND ARRAY AS ASM BEGIN CASE CLASS CONST CONSTRUCTOR DESTRUCTOR
 DISPINTERFACE DIV DO DOWNTO ELSE END EXCEPT EXPORTS FILE FINALIZATION FINALLY FOR FUNCTION GOTO IF
 IMPLEMENTATION IN INHERITED INITIALIZATION INLINE INTERFACE IS LABEL LIBRARY MOD NIL NOT OBJECT OF OR
 OUT PACKED PROCEDURE PROGRAM PROPERTY RAISE RECORD REPEAT RESOURCESTRING SET SHL SHR STRING THEN
 THREADVAR TO TRY TYPE UNIT UNTIL USES VAR WHILE WITH XOR`)

var directiveWordList = strings.Fields(`ABSOLUTE ABSTRACT AT CDECL DEFAULT DEPRECATED DYNAMIC EXPORT EXTERNAL FAR
 FORWARD IMPLEMENTS INDEX LOCAL MESSAGE NAME NEAR NODEFAULT ON OVERLOAD OVERRIDE PASCAL PLATFORM PRIVATE PROTECTED
 PUBLIC PUBLISHED READ REGISTER REINTRODUCE SAFECALL STDCALL STORED VARARGS VIRTUAL WRITE`)

var symbolList = strings.Fields(`# $ & ( ) * + , - . / : ; < = > @ [ ] ^ } (. .) .. := <= >= <>`)

func pick[T any](t *rapid.T, label string, xs []T) T {
	return xs[uniform(t, len(xs)-1)]
}

func caseVariant(w string, k int) string {
	switch k {
	case 0:
		return strings.ToLower(w)
	case 1:
		return strings.ToUpper(w)
	case 2:
		return strings.ToUpper(w[:1]) + strings.ToLower(w[1:])
	default:
		b := []byte(strings.ToLower(w))
		for i := range b {
			if (i+k)%2 == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
}

var spaceRunes = []rune{' ', '\t', '\n', '\r', '\v', '\f', 0x85, 0xA0, 0x1680, 0x2000, 0x2003, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000}
var wordHeadRunes = []rune("abzAZ_xеéñßあ漢字Ωλ")
var wordRunes = []rune("ab09Z_x1éあ漢Ω")
var illegalRunes = []rune("!\"%?\\|~`\x00\x01\x7f€→٣²½\u0301\u200b😀\ufeff\ufffd")
var commentRunes = []rune("ab {(*/'\n\t}あ;\r\x00") // '}' and others are filtered per kind
var stringRunes = []rune("ab 0{}(*)/\n\t;あ\"#\x00")

func drawRunes(t *rapid.T, label string, from []rune, max int) string {
	return string(rapid.SliceOfN(rapid.SampledFrom(from), 0, max).Draw(t, label))
}

func genChunk(t *rapid.T) string {
	switch rapid.IntRange(0, 12).Draw(t, "chunk") {
	case 0:
		return string(pick(t, "head", wordHeadRunes)) + drawRunes(t, "word", wordRunes, 6)
	case 1:
		return " "
	case 2:
		return pick(t, "sym", symbolList)
	case 3:
		return drawRunes(t, "sp", spaceRunes, 4)
	case 4: // numerals
		s := ""
		if rapid.Bool().Draw(t, "neg") {
			s = "-"
		}
		s += string(rapid.SliceOfN(rapid.SampledFrom([]rune("0123456789")), 1, 5).Draw(t, "int"))
		switch rapid.IntRange(0, 4).Draw(t, "frac") {
		case 1:
			s += "."
		case 2, 3:
			s += "." + string(rapid.SliceOfN(rapid.SampledFrom([]rune("0123456789")), 1, 3).Draw(t, "frac"))
		case 4:
			s += ".."
		}
		return s
	case 5: // reserved word
		w := pick(t, "rw", reservedWordList)
		return caseVariant(w, rapid.IntRange(0, 4).Draw(t, "case"))
	case 6: // almost a reserved word
		w := caseVariant(pick(t, "rw", reservedWordList), rapid.IntRange(0, 4).Draw(t, "case"))
		return pick(t, "pre", []string{"", "_", "x", "0"}) + w + pick(t, "suf", []string{"", "s", "_", "1", "é"})
	case 7:
		return caseVariant(pick(t, "dir", directiveWordList), rapid.IntRange(0, 4).Draw(t, "case"))
	case 8: // { comment }
		s := strings.ReplaceAll(drawRunes(t, "com", commentRunes, 8), "}", "")
		return "{" + s + "}"
	case 9: // (* comment *)
		s := strings.ReplaceAll(drawRunes(t, "com", commentRunes, 8), "*)", "")
		s = strings.TrimSuffix(s, "*")
		return "(*" + s + pick(t, "stars", []string{"", "*", "**"}) + "*)"
	case 10: // line comment
		s := strings.ReplaceAll(drawRunes(t, "com", commentRunes, 8), "\n", "")
		return "//" + s + pick(t, "nl", []string{"\n", "\r\n"})
	case 11: // string
		n := rapid.IntRange(0, 3).Draw(t, "parts")
		s := "'"
		for i := 0; i <= n; i++ {
			if i > 0 {
				s += "''"
			}
			s += drawRunes(t, "str", stringRunes, 4)
		}
		return s + "'"
	default:
		return string(pick(t, "ill", illegalRunes))
	}
}

func genLexCase(t *rapid.T) lexCase {
	c := lexCase{}
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 8: // arbitrary characters
		all := append(append(append(append(append([]rune{}, wordHeadRunes...), wordRunes...), illegalRunes...), spaceRunes...), []rune("'{}()*/.:=<>-\\'#$&@[]^+,;")...)
		c.Text = string(rapid.SliceOfN(rapid.SampledFrom(all), 0, 40).Draw(t, "runes"))
		c.Class = "runes"
	case 9: // something left open at the end
		c.Text = genChunks(t) + pick(t, "open", []string{"{", "(*", "//", "'", "{ a", "(* b *", "(*)", "// c", "'str", "'it''", "'\\'", "/", "-", "1.", ".", "<", ":", "("})
		c.Class = "open"
	default:
		c.Text = genChunks(t)
		c.Class = "chunks"
	}
	c.Clones = rapid.SliceOfN(rapid.IntRange(0, 20), 0, 3).Draw(t, "clones")
	return c
}

func genChunks(t *rapid.T) string {
	n := rapid.IntRange(0, 14).Draw(t, "n")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(genChunk(t))
	}
	return sb.String()
}

// ---------------------------------------------------------------------------
// Reference lexer

type refTok struct {
	typ        token.Type
	start, end int
}

var refReserved = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range reservedWordList {
		m[w] = true
	}
	return m
}()

func isRefWordHead(r rune) bool { return r == '_' || unicode.IsLetter(r) }
func isRefDigit(r rune) bool    { return '0' <= r && r <= '9' }

// refLex is the reference: longest match of each lexical class of the language.
func refLex(rs []rune) []refTok {
	at := func(i int) rune {
		if i < len(rs) {
			return rs[i]
		}
		return -1
	}
	find := func(from int, pat string) int { // index after pat, or the end of the text
		p := []rune(pat)
		for i := from; i+len(p) <= len(rs); i++ {
			ok := true
			for k := range p {
				if rs[i+k] != p[k] {
					ok = false
					break
				}
			}
			if ok {
				return i + len(p)
			}
		}
		return len(rs)
	}
	var out []refTok
	i := 0
	for i < len(rs) {
		s := i
		r := rs[i]
		typ := token.Illegal
		switch {
		case r == '{':
			typ, i = token.Comment, find(i+1, "}")
		case r == '(' && at(i+1) == '*':
			typ, i = token.Comment, find(i+2, "*)")
		case r == '/' && at(i+1) == '/':
			typ = token.Comment
			i = find(i, "\n")
			if rs[i-1] == '\n' {
				i--
			}
		case r == '\'':
			typ = token.CharacterString
			i++
			for i < len(rs) {
				if rs[i] == '\'' && !(i-1 > s && rs[i-1] == '\\') {
					if at(i+1) != '\'' {
						break
					}
					i++
				}
				i++
			}
			if i < len(rs) {
				i++ // the closing quote
			}
		case isRefDigit(r) || r == '-' && isRefDigit(at(i+1)):
			typ = token.NumeralInt
			i++
			for isRefDigit(at(i)) {
				i++
			}
			if at(i) == '.' && at(i+1) != '.' {
				typ = token.NumeralReal
				i++
				for isRefDigit(at(i)) {
					i++
				}
			}
		case isRefWordHead(r):
			for i < len(rs) && (isRefWordHead(rs[i]) || isRefDigit(rs[i])) {
				i++
			}
			typ = token.Identifier
			if refReserved[strings.ToUpper(string(rs[s:i]))] {
				typ = token.ReservedWord
			}
		case unicode.IsSpace(r):
			typ = token.Space
			for i < len(rs) && unicode.IsSpace(rs[i]) {
				i++
			}
		default:
			two := ""
			if i+1 < len(rs) {
				two = string(rs[i : i+2])
			}
			switch two {
			case "(.", ".)", "..", ":=", "<=", ">=", "<>":
				typ = token.SpecialSymbol
				i += 2
			default:
				if strings.ContainsRune("#$&()*+,-./:;<=>@[]^}", r) {
					typ = token.SpecialSymbol
				}
				i++
			}
		}
		out = append(out, refTok{typ, s, i})
	}
	return out
}

// lexAll reads all tokens, up to and including EOF. A tokenizer which doesn't
// move on is an error.
func lexAll(tk *token.Tokenizer, textLen int) ([]*token.Token, error) {
	var r []*token.Token
	for i := 0; i <= textLen+1; i++ {
		t := tk.GetNext()
		if t == nil {
			return nil, fmt.Errorf("GetNext returned nil after %d tokens", len(r))
		}
		r = append(r, t)
		if t.Type == token.EOF {
			return r, nil
		}
	}
	return nil, fmt.Errorf("no EOF after %d tokens of a text of %d characters", len(r), textLen)
}

func tokStr(t *token.Token) string {
	return fmt.Sprintf("%s %q [%d:%d) %d,%d-%d,%d", t.Type, t.RawString(), t.Start.Index, t.End.Index, t.Start.Line, t.Start.Col, t.End.Line, t.End.Col)
}

func sameToks(what string, a, b []*token.Token) error {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = tokStr(a[i])
		}
		if i < len(b) {
			y = tokStr(b[i])
		}
		if x != y {
			return fmt.Errorf("%s: token %d is %s, want %s", what, i, x, y)
		}
	}
	return nil
}

const allFlags = token.LoadSpace | token.LoadComment

// checkLossless: the tokens of a text are the text.
func checkLossless(c *lexCase) error {
	rs := []rune(c.Text)
	full, err := lexAll(token.NewTokenizer(&rs, allFlags), len(rs))
	if err != nil {
		return err
	}
	pos := 0
	var sb strings.Builder
	for i, t := range full {
		if t.Start.Index != pos {
			return fmt.Errorf("token %d (%s) starts at %d, the one before ended at %d", i, tokStr(t), t.Start.Index, pos)
		}
		if t.End.Index < t.Start.Index || t.End.Index > len(rs) {
			return fmt.Errorf("token %d has the range [%d:%d) in a text of %d", i, t.Start.Index, t.End.Index, len(rs))
		}
		if t.Type != token.EOF && t.End.Index == t.Start.Index {
			return fmt.Errorf("token %d (%s) is empty", i, tokStr(t))
		}
		if t.Len() != t.End.Index-t.Start.Index || t.Len() != len(t.Raw()) {
			return fmt.Errorf("token %d (%s) has the length %d", i, tokStr(t), t.Len())
		}
		pos = t.End.Index
		sb.WriteString(t.RawString())
	}
	if want := string(rs); sb.String() != want {
		return fmt.Errorf("the tokens spell %q, the text is %q", sb.String(), want)
	}
	if e := full[len(full)-1]; e.Start.Index != len(rs) {
		return fmt.Errorf("EOF at %d in a text of %d", e.Start.Index, len(rs))
	}
	// EOF stays EOF
	tk := token.NewTokenizer(&rs, allFlags)
	if _, err := lexAll(tk, len(rs)); err != nil {
		return err
	}
	for i := 0; i < 3; i++ {
		if t := tk.GetNext(); t == nil || t.Type != token.EOF || t.Start.Index != len(rs) {
			return fmt.Errorf("after EOF comes %v", t)
		}
	}
	// Filtering leaves the other tokens as they are
	for _, fl := range []token.TokeninzerFlag{0, token.LoadSpace, token.LoadComment} {
		var want []*token.Token
		for _, t := range full {
			if t.Type == token.Space && fl&token.LoadSpace == 0 || t.Type == token.Comment && fl&token.LoadComment == 0 {
				continue
			}
			want = append(want, t)
		}
		got, err := lexAll(token.NewTokenizer(&rs, fl), len(rs))
		if err != nil {
			return err
		}
		if err := sameToks(fmt.Sprintf("flags %d", fl), got, want); err != nil {
			return err
		}
	}
	// A clone goes on from where it was made, whatever the original does meanwhile
	for _, k := range c.Clones {
		for _, fl := range []token.TokeninzerFlag{0, token.LoadSpace, token.LoadComment, allFlags} {
			want, err := lexAll(token.NewTokenizer(&rs, fl), len(rs))
			if err != nil {
				return err
			}
			tk := token.NewTokenizer(&rs, fl)
			n := k % len(want)
			for i := 0; i < n; i++ {
				tk.GetNext()
			}
			cl := tk.Clone()
			orig, err := lexAll(tk, len(rs))
			if err != nil {
				return err
			}
			if err := sameToks("the original after Clone", orig, want[n:]); err != nil {
				return err
			}
			got, err := lexAll(cl, len(rs))
			if err != nil {
				return err
			}
			if err := sameToks("the clone", got, want[n:]); err != nil {
				return err
			}
		}
	}
	return nil
}

// checkClassify compares with the reference lexer.
func checkClassify(c *lexCase) error {
	rs := []rune(c.Text)
	ref := refLex(rs)
	got, err := lexAll(token.NewTokenizer(&rs, allFlags), len(rs))
	if err != nil {
		return err
	}
	for i := 0; i < len(ref) || i < len(got)-1; i++ {
		w, g := "nothing", "nothing"
		if i < len(ref) {
			w = fmt.Sprintf("%s %q [%d:%d)", ref[i].typ, string(rs[ref[i].start:ref[i].end]), ref[i].start, ref[i].end)
		}
		if i < len(got)-1 {
			t := got[i]
			g = fmt.Sprintf("%s %q [%d:%d)", t.Type, t.RawString(), t.Start.Index, t.End.Index)
		}
		if w != g {
			return fmt.Errorf("token %d is %s, want %s", i, g, w)
		}
		t := got[i]
		val := t.RawString()
		if t.Type == token.ReservedWord {
			val = strings.ToUpper(val)
		}
		if t.Value() != val {
			return fmt.Errorf("the value of token %d (%s) is %q, want %q", i, g, t.Value(), val)
		}
	}
	return nil
}

// leadingLF is the known finding P02/leading-lf: a line feed which is the very
// first character isn't counted. While it is there, positions in texts which
// begin with a line feed are expected with exactly that deviation.
var leadingLF = sync.OnceValue(func() bool {
	rs := []rune("\nx")
	t := token.NewTokenizer(&rs, 0).GetNext()
	return t != nil && t.Type == token.Identifier && t.Start.Line == 1 && t.Start.Col == 2
})

// truePositions has the line and column of each character, and of the end.
func truePositions(rs []rune) [][2]int {
	r := make([][2]int, 0, len(rs)+1)
	line, col := 1, 1
	for k, x := range rs {
		r = append(r, [2]int{line, col})
		if x == '\n' && !(k == 0 && leadingLF()) {
			line++
			col = 1
		} else {
			col++
		}
	}
	return append(r, [2]int{line, col})
}

func checkPos(at [][2]int, t *token.Token, no int, what string, p *runes.Position) error {
	if p == nil {
		return fmt.Errorf("the %s of token %d (%s %q) is nil", what, no, t.Type, t.RawString())
	}
	if p.Index < 0 || p.Index >= len(at) {
		return fmt.Errorf("the %s of token %d has the index %d in a text of %d", what, no, p.Index, len(at)-1)
	}
	if l, c := at[p.Index][0], at[p.Index][1]; p.Line != l || p.Col != c {
		return fmt.Errorf("the %s of token %d (%s %q, index %d) is %d,%d, want %d,%d", what, no, t.Type, t.RawString(), p.Index, p.Line, p.Col, l, c)
	}
	return nil
}

func checkTokenPositions(c *lexCase) error {
	rs := []rune(c.Text)
	at := truePositions(rs)
	for _, fl := range []token.TokeninzerFlag{allFlags, 0, token.LoadSpace, token.LoadComment} {
		tk := token.NewTokenizer(&rs, fl)
		toks, err := lexAll(tk, len(rs))
		if err != nil {
			return err
		}
		for i, t := range toks {
			if err := checkPos(at, t, i, "start", t.Start); err != nil {
				return err
			}
			if err := checkPos(at, t, i, "end", t.End); err != nil {
				return err
			}
		}
		// reading on through a clone gives the same positions
		for _, k := range c.Clones {
			tk := token.NewTokenizer(&rs, fl)
			for i := 0; i < k%len(toks); i++ {
				tk.GetNext()
			}
			rest, err := lexAll(tk.Clone(), len(rs))
			if err != nil {
				return err
			}
			if err := sameToks("the clone", rest, toks[k%len(toks):]); err != nil {
				return err
			}
		}
	}
	return nil
}

func lexNontrivial(c *lexCase) bool {
	toks := refLex([]rune(c.Text))
	kinds := map[token.Type]bool{}
	for _, t := range toks {
		kinds[t.typ] = true
	}
	return len(kinds) >= 3
}

func lexClasses(c *lexCase) []string {
	r := []string{"kind=" + c.Class}
	kinds := map[token.Type]bool{}
	for _, t := range refLex([]rune(c.Text)) {
		if !kinds[t.typ] {
			kinds[t.typ] = true
			r = append(r, "has "+t.typ.String())
		}
	}
	if strings.Contains(c.Text, "\n") {
		r = append(r, "multi-line")
	}
	return r
}

const lexRule = "texts of adjacent chunks (words, near-reserved words, numerals, strings, the three comment kinds, symbols, Unicode spaces, illegal characters), of arbitrary characters, and with something left open at the end; non-trivial: at least three token types by the reference lexer"

func init() {
	properties = append(properties,
		&Property{ID: "P01", Facets: append([]Facet{
			facet("lossless", lexRule, 300000, 8000000, genLexCase, checkLossless, lexNontrivial, lexClasses),
		}, lexFacets(checkLossless)...)},
		&Property{ID: "P03", Facets: append([]Facet{
			facet("classify", lexRule, 500000, 15000000, genLexCase, checkClassify, lexNontrivial, lexClasses),
		}, lexFacets(checkClassify)...)},
	)
}
