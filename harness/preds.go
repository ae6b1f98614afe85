package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/akm/tparser/ext"
	"github.com/akm/tparser/token"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P21: predicates of tokens, and the helpers they are made of

type predExpr struct {
	Op   string      `json:"op"`
	Typ  int         `json:"typ,omitempty"`
	Text []string    `json:"text,omitempty"`
	Kids []*predExpr `json:"kids,omitempty"`
}

type predCase struct {
	Text string    `json:"text"`
	Pred *predExpr `json:"pred"`
}

var predTypes = []token.Type{token.EOF, token.Space, token.Comment, token.SpecialSymbol, token.Identifier, token.ReservedWord, token.NumeralInt, token.NumeralReal, token.CharacterString, token.Illegal}

// The directives which the token package knows, from the language.
var directiveSet = strings.Fields("ABSTRACT CDECL DYNAMIC EXPORT EXTERNAL FAR FORWARD INDEX LOCAL MESSAGE NAME NEAR OVERLOAD OVERRIDE PASCAL REGISTER REINTRODUCE SAFECALL STDCALL VARARGS")
var portabilitySet = strings.Fields("PLATFORM DEPRECATED LIBRARY")

var predWords = []string{"begin", "END", "Forward", "forward", "STDCALL", "index", "Name", "platform", "Deprecated", "library", "foo", "FOO", "Foo", "x", "string", "out", "OUT", "+", "-", ":=", "<", "<=", "..", ".", "(", "(.", "'a'", "'A'", "1", "1.5", "-1", "?", " ", "\n", "{c}", "//x\n", "表", "Ä", "ä"}

func genPredExpr(t *rapid.T, depth int) *predExpr {
	k := uniform(t, 13)
	if depth >= 3 && k < 3 {
		k += 3
	}
	word := func() string { return pick(t, "word", predWords) }
	switch k {
	case 0:
		return &predExpr{Op: "not", Kids: []*predExpr{genPredExpr(t, depth+1)}}
	case 1, 2:
		e := &predExpr{Op: "some"}
		if k == 2 {
			e.Op = "every"
		}
		for i := uniform(t, 3); i > 0; i-- {
			e.Kids = append(e.Kids, genPredExpr(t, depth+1))
		}
		return e
	case 3:
		return &predExpr{Op: "type", Typ: uniform(t, len(predTypes)-1)}
	case 4:
		return &predExpr{Op: "tokentype", Typ: uniform(t, len(predTypes)-1)}
	case 5:
		return &predExpr{Op: "symbol", Text: []string{pick(t, "sym", append(append([]string{}, symbolList...), "", "a"))}}
	case 6:
		return &predExpr{Op: "value", Text: []string{word()}}
	case 7:
		return &predExpr{Op: "upper", Text: []string{strings.ToUpper(word())}}
	case 8:
		return &predExpr{Op: "hastext", Typ: uniform(t, len(predTypes)-1), Text: []string{word()}}
	case 9:
		e := &predExpr{Op: "haskeyword", Typ: uniform(t, len(predTypes)-1)}
		if predTypes[e.Typ] == token.ReservedWord || coin.Draw(t, "reserved") {
			e.Typ = 5
			e.Text = []string{pick(t, "kw", reservedWordList)}
			if coin.Draw(t, "common") {
				e.Text = []string{pick(t, "kw", []string{"BEGIN", "END", "STRING", "OUT"})}
			}
		} else {
			e.Text = []string{strings.ToUpper(word())}
		}
		return e
	case 10:
		return &predExpr{Op: "directives", Text: rapid.SliceOfN(rapid.SampledFrom(directiveSet), 0, 4).Draw(t, "names")}
	case 11:
		return &predExpr{Op: "portability", Text: rapid.SliceOfN(rapid.SampledFrom(portabilitySet), 0, 3).Draw(t, "names")}
	case 12:
		return &predExpr{Op: pick(t, "any", []string{"anydirective", "anyportability"})}
	}
	return &predExpr{Op: "by", Text: []string{strings.ToUpper(word())}}
}

func genPred(t *rapid.T) predCase {
	var sb strings.Builder
	for i := uniform(t, 12); i >= 0; i-- {
		switch uniform(t, 4) {
		case 0:
			sb.WriteString(caseVariant(pick(t, "dir", directiveSet), uniform(t, 3)))
		case 1:
			sb.WriteString(caseVariant(pick(t, "kw", reservedWordList), uniform(t, 3)))
		default:
			sb.WriteString(pick(t, "word", predWords))
		}
		sb.WriteString(pick(t, "gap", []string{" ", " ", "\n", ""}))
	}
	return predCase{Text: sb.String(), Pred: genPredExpr(t, 0)}
}

func (e *predExpr) build() token.Predicator {
	var kids []token.Predicator
	for _, k := range e.Kids {
		kids = append(kids, k.build())
	}
	switch e.Op {
	case "not":
		return token.Not(kids[0])
	case "some":
		return token.Some(kids...)
	case "every":
		return token.Every(kids...)
	case "type":
		return predTypes[e.Typ]
	case "tokentype":
		return token.TokenType(predTypes[e.Typ])
	case "symbol":
		return token.Symbol([]rune(e.Text[0])...)
	case "value":
		return token.Value(e.Text[0])
	case "upper":
		return token.UpperCase(e.Text[0])
	case "hastext":
		return predTypes[e.Typ].HasText(e.Text[0])
	case "haskeyword":
		return predTypes[e.Typ].HasKeyword(e.Text[0])
	case "directives":
		return token.Directives(e.Text...)
	case "portability":
		return token.PortabilityDirectives(e.Text...)
	case "anydirective":
		return token.Directive
	case "anyportability":
		return token.PortabilityDirective
	case "by":
		return token.PredicatorBy("by", func(s string) bool { return strings.HasPrefix(s, e.Text[0]) })
	}
	panic("unknown predicate " + e.Op)
}

func hasString(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// eval is the meaning of the predicate for a token with this type and text.
func (e *predExpr) eval(typ token.Type, raw string) bool {
	value := raw
	if typ == token.ReservedWord {
		value = strings.ToUpper(raw)
	}
	switch e.Op {
	case "not":
		return !e.Kids[0].eval(typ, raw)
	case "some":
		for _, k := range e.Kids {
			if k.eval(typ, raw) {
				return true
			}
		}
		return false
	case "every":
		for _, k := range e.Kids {
			if !k.eval(typ, raw) {
				return false
			}
		}
		return true
	case "type", "tokentype":
		return typ == predTypes[e.Typ]
	case "symbol":
		return typ == token.SpecialSymbol && raw == e.Text[0]
	case "value":
		return value == e.Text[0]
	case "upper":
		return strings.ToUpper(raw) == e.Text[0]
	case "hastext", "haskeyword":
		return typ == predTypes[e.Typ] && value == e.Text[0]
	case "directives", "portability":
		return hasString(e.Text, strings.ToUpper(raw))
	case "anydirective":
		return hasString(directiveSet, strings.ToUpper(raw))
	case "anyportability":
		return hasString(portabilitySet, strings.ToUpper(raw))
	case "by":
		return strings.HasPrefix(strings.ToUpper(raw), e.Text[0])
	}
	panic("unknown predicate " + e.Op)
}

func checkPred(c *predCase) error {
	rs := []rune(c.Text)
	p := c.Pred.build()
	name := p.Name()
	tk := token.NewTokenizer(&rs, 0)
	for i := 0; i <= len(rs)+1; i++ {
		t := tk.GetNext()
		raw := t.RawString()
		want := c.Pred.eval(t.Type, raw)
		if got := p.Predicate(t); got != want {
			return fmt.Errorf("the predicate %s is %v for %v", name, got, t)
		}
		if t.Is(p) != want || token.Some(p).Predicate(t) != want || token.Every(p).Predicate(t) != want || token.Not(token.Not(p)).Predicate(t) != want {
			return fmt.Errorf("Is, Some, Every or a double Not of the predicate %s isn't %v for %v", name, want, t)
		}
		cl := t.Clone()
		if cl == t || cl.Type != t.Type || cl.RawString() != raw || cl.Value() != t.Value() || *cl.Start != *t.Start || *cl.End != *t.End {
			return fmt.Errorf("the clone %v of the token %v differs", cl, t)
		}
		if t.Len() != len([]rune(raw)) {
			return fmt.Errorf("the length of %v is %d", t, t.Len())
		}
		if p.Name() != name {
			return fmt.Errorf("the name of the predicate changes: %s / %s", p.Name(), name)
		}
		if t.Type == token.EOF {
			return nil
		}
	}
	return fmt.Errorf("no end of the text")
}

func (e *predExpr) size() int {
	n := 1
	for _, k := range e.Kids {
		n += k.size()
	}
	return n
}

// ---- lists and sets of strings

type setOp struct {
	Op   string   `json:"op"`
	Args []string `json:"args"`
}

type setCase struct {
	Init []string `json:"init"`
	Ops  []setOp  `json:"ops"`
}

var setWords = []string{"", "a", "A", "b", "aa", "AB", "ab", "表", "Z", "z z"}

func genSet(t *rapid.T) setCase {
	c := setCase{Init: rapid.SliceOfN(rapid.SampledFrom(setWords), 0, 6).Draw(t, "init")}
	for i := uniform(t, 8); i >= 0; i-- {
		o := setOp{Op: pick(t, "op", []string{"add", "remove", "exclude", "select", "map", "reverse", "sort", "upper", "equal", "join", "extract"})}
		o.Args = rapid.SliceOfN(rapid.SampledFrom(setWords), 1, 4).Draw(t, "args")
		c.Ops = append(c.Ops, o)
	}
	return c
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(s []string) []string {
	r := append([]string{}, s...)
	sort.Strings(r)
	return r
}

func checkSet(c *setCase) error {
	list := append([]string{}, c.Init...)
	set := ext.Strings(append([]string{}, c.Init...)).Set()
	model := map[string]bool{}
	for _, s := range c.Init {
		model[s] = true
	}
	for i, o := range c.Ops {
		where := fmt.Sprintf("step %d (%s %q of %q)", i, o.Op, o.Args, list)
		in := ext.Strings(append([]string{}, list...))
		var got ext.Strings
		var want []string
		keep := true // the receiver must not change
		switch o.Op {
		case "add":
			set.Add(o.Args[0])
			model[o.Args[0]] = true
		case "remove":
			set.Remove(o.Args[0])
			delete(model, o.Args[0])
		case "exclude":
			got, want = in.Exclude(o.Args...), []string{}
			for _, s := range list {
				if !hasString(o.Args, s) {
					want = append(want, s)
				}
			}
		case "select":
			got, want = in.Select(func(s string) bool { return len(s) > len(o.Args[0]) }), []string{}
			for _, s := range list {
				if len(s) > len(o.Args[0]) {
					want = append(want, s)
				}
			}
		case "map":
			got, want = in.Map(func(s string) string { return s + o.Args[0] }), []string{}
			for _, s := range list {
				want = append(want, s+o.Args[0])
			}
		case "reverse":
			got, want = in.Reverse(), []string{}
			for k := len(list) - 1; k >= 0; k-- {
				want = append(want, list[k])
			}
		case "sort":
			got, want, keep = in.Sort(), sorted(list), false
		case "upper":
			got, want = in.ToUpper(), []string{}
			for _, s := range list {
				want = append(want, strings.ToUpper(s))
			}
		case "equal":
			if in.Equal(ext.Strings(o.Args)) != eqStrings(list, o.Args) || !in.Equal(append(ext.Strings{}, in...)) {
				return fmt.Errorf("%s: Strings.Equal", where)
			}
			other := ext.NewStringSet(o.Args...)
			same := len(other) == len(model)
			for k := range other {
				same = same && model[k]
			}
			if set.Equal(other) != same || other.Equal(set) != same || !set.Equal(set.Slice().Set()) {
				return fmt.Errorf("%s: StringSet.Equal", where)
			}
		case "join":
			if got, want := in.Join(o.Args[0]), strings.Join(list, o.Args[0]); got != want {
				return fmt.Errorf("%s: %q instead of %q", where, got, want)
			}
		case "extract":
			a, b := ext.ExtractStrings("x", 1, []string(list), ext.Strings(o.Args), nil, set)
			w := append(append([]string{"x"}, list...), o.Args...)
			if !eqStrings(a, w) || len(b) != 3 || b[0] != 1 || b[1] != nil {
				return fmt.Errorf("%s: ExtractStrings gives %q and %v", where, a, b)
			}
			ss, rest := ext.ExtractStringSets("x", set, 2, set)
			if len(ss) != 2 || !ss[0].Equal(set) || len(rest) != 2 || rest[0] != "x" || rest[1] != 2 {
				return fmt.Errorf("%s: ExtractStringSets gives %v and %v", where, ss, rest)
			}
		}
		if keep && !eqStrings(in, list) {
			return fmt.Errorf("%s: the list itself becomes %q", where, in)
		}
		if want != nil {
			if !eqStrings(got, want) {
				return fmt.Errorf("%s: %q instead of %q", where, got, want)
			}
			list = want
			if len(list) > 12 {
				list = list[:12]
			}
			if len(strings.Join(list, "")) > 200 {
				list = append([]string{}, c.Init...)
			}
		}
		for _, s := range setWords {
			if set.Include(s) != model[s] {
				return fmt.Errorf("%s: the set has %q: %v", where, s, set.Include(s))
			}
			if ext.Strings(list).Include(s) != hasString(list, s) {
				return fmt.Errorf("%s: the list %q has %q: %v", where, list, s, ext.Strings(list).Include(s))
			}
		}
		var keys []string
		for k := range model {
			keys = append(keys, k)
		}
		if s := set.Slice(); !eqStrings(sorted(s), sorted(keys)) {
			return fmt.Errorf("%s: the set has the elements %q instead of %q", where, s, sorted(keys))
		}
		if fs := ext.Strings(list).Interfaces(); len(fs) != len(list) {
			return fmt.Errorf("%s: Interfaces has %d elements", where, len(fs))
		} else {
			for k := range fs {
				if fs[k] != any(list[k]) {
					return fmt.Errorf("%s: Interfaces has %v at %d", where, fs[k], k)
				}
			}
		}
	}
	return nil
}

func init() {
	properties = append(properties,
		&Property{ID: "P21", Facets: []Facet{
			facet("predicates", "a predicate built of up to 3 levels of Not, Some, Every and the elementary ones, and every token of a text; non-trivial: at least 3 predicates", 150000, 8000000,
				genPred, checkPred, func(c *predCase) bool { return c.Pred.size() >= 3 }, func(c *predCase) []string { return []string{c.Pred.Op} }),
			facet("sets", "up to 9 operations on a list and a set of strings; non-trivial: at least 3 operations", 60000, 3000000,
				genSet, checkSet, func(c *setCase) bool { return len(c.Ops) >= 3 }, func(c *setCase) []string {
					r := []string{}
					for _, o := range c.Ops {
						r = append(r, o.Op)
					}
					return r
				}),
		}},
	)
}
