package main

import (
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P01 to P03: long texts, and every character of Unicode

// bigCase is a text given by pieces which are repeated.
type bigCase struct {
	Parts  []bigPart `json:"parts"`
	Clones []int     `json:"clones,omitempty"`
}

type bigPart struct {
	S string `json:"s"`
	N int    `json:"n"`
}

func (c *bigCase) lex() *lexCase {
	var sb strings.Builder
	for _, p := range c.Parts {
		sb.WriteString(strings.Repeat(p.S, p.N))
	}
	return &lexCase{Text: sb.String(), Class: "big", Clones: c.Clones}
}

func genBig(t *rapid.T) bigCase {
	c := bigCase{}
	budget := 1000
	switch uniform(t, 15) {
	case 12, 13:
		budget = 6000
	case 14:
		budget = 20000
	case 15:
		budget = 80000
	}
	budget += uniform(t, budget)
	add := func(s string, n int) {
		if s != "" && n > 0 {
			c.Parts = append(c.Parts, bigPart{s, n})
			budget -= len([]rune(s)) * n
		}
	}
	// rep draws how often a piece of the length l is repeated.
	rep := func(l int) int {
		if budget <= 0 {
			return 1
		}
		max := budget / l
		if coin.Draw(t, "part") {
			max /= 8
		}
		return 1 + uniform(t, max)
	}
	for i := 0; i < 40 && budget > 0; i++ {
		switch uniform(t, 12) {
		case 0: // a long word
			add(string(pick(t, "head", wordHeadRunes)), 1)
			w := string(pick(t, "w", wordRunes)) + drawRunes(t, "word", wordRunes, 3)
			add(w, rep(len(w)))
		case 1: // a long numeral
			add("7", rep(1))
			if coin.Draw(t, "frac") {
				add(".", 1)
				add("3", rep(1))
			}
		case 2: // a long string
			add("'", 1)
			for j := uniform(t, 3); j >= 0; j-- {
				s := drawRunes(t, "str", stringRunes, 4)
				if uniform(t, 2) == 0 {
					s += "''"
				}
				if s != "" {
					add(s, rep(len(s)))
				}
			}
			add("'", 1)
		case 3: // a long comment
			open, cl := "{", "}"
			from := []rune("ab {(*/'\n\t あ;\r")
			switch uniform(t, 2) {
			case 1:
				open, cl = "(*", "*)"
				from = []rune("ab {(/'\n\t}あ;\r")
			case 2:
				open, cl = "//", "\n"
				from = []rune("ab {(*/'\t}あ;\r")
			}
			add(open, 1)
			for j := uniform(t, 2); j >= 0; j-- {
				if s := drawRunes(t, "com", from, 5); s != "" {
					add(s, rep(len(s)))
				}
			}
			add(cl, 1)
		case 4: // many lines
			add(pick(t, "nl", []string{"\n", "\r\n", "x\n", " \n", "//\n", "{}\n", "\n\n\t"}), rep(2))
		case 5: // wide lines
			add(pick(t, "wide", []string{" ", "\t", "a ", "漢 ", "+", "\u3000", "{} ", "''", "( "}), rep(2))
		case 6: // a long gap
			s := drawRunes(t, "sp", spaceRunes, 4) + " "
			add(s, rep(len(s)))
		default:
			for j := uniform(t, 4); j >= 0; j-- {
				add(genChunk(t), 1)
			}
		}
	}
	for i := uniform(t, 1); i > 0; i-- {
		c.Clones = append(c.Clones, uniform(t, 400))
	}
	return c
}

func bigNontrivial(c *bigCase) bool { return len(c.lex().Text) > 500 && lexNontrivial(c.lex()) }

func bigClasses(c *bigCase) []string {
	l := c.lex()
	r := []string{}
	rs := []rune(l.Text)
	longest, col, maxCol := 0, 0, 0
	for _, t := range refLex(rs) {
		if n := t.end - t.start; n > longest {
			longest = n
		}
	}
	for _, x := range rs {
		col++
		if col > maxCol {
			maxCol = col
		}
		if x == '\n' {
			col = 0
		}
	}
	for _, k := range []struct {
		name string
		n    int
	}{{"token", longest}, {"line", maxCol}, {"text", len(rs)}, {"lines", strings.Count(l.Text, "\n")}} {
		switch {
		case k.n > 65536:
			r = append(r, k.name+" > 65536")
		case k.n > 4096:
			r = append(r, k.name+" > 4096")
		case k.n > 256:
			r = append(r, k.name+" > 256")
		}
	}
	return r
}

// charCase has 64 characters in a row of code points, each in the same context.
type charCase struct {
	Block int    `json:"block"`
	Pre   string `json:"pre"`
	Post  string `json:"post"`
}

func genChars(t *rapid.T) charCase {
	c := charCase{}
	switch uniform(t, 3) {
	case 0:
		c.Block = uniform(t, 15) // up to U+03FF
	case 1, 2:
		c.Block = uniform(t, 1023)
	default:
		c.Block = uniform(t, 0x10FFFF/64)
	}
	ctx := []string{"", "", "a", "1", "-", "'", "' '", "{", "{}", "//", "(", "(*", "*)", ".", "<", " ", "\n", "_", "1.", ":", "end", "漢", "!"}
	c.Pre = pick(t, "pre", ctx)
	c.Post = pick(t, "post", ctx)
	return c
}

func (c *charCase) lex() *lexCase {
	var sb strings.Builder
	for i := 0; i < 64; i++ {
		r := rune(c.Block*64 + i)
		if r >= 0xD800 && r <= 0xDFFF || r > 0x10FFFF {
			continue
		}
		sb.WriteString(c.Pre)
		sb.WriteRune(r)
		sb.WriteString(c.Post)
		if i%8 == 7 {
			// what is still open ends here
			sb.WriteString("\n'\n}*)\n")
		}
	}
	return &lexCase{Text: sb.String(), Class: "chars"}
}

const bigRule = "texts of 1000 to 160000 characters: words, numerals, strings, comments, gaps and lines which are repeated or continued for long, with ordinary chunks between; non-trivial: more than 500 bytes and at least three token types"
const charRule = "64 characters in a row, of all of Unicode, each between the same two of 23 contexts; non-trivial: at least three token types"

// lexFacets makes the facets of long texts and all characters of a property.
func lexFacets(check func(*lexCase) error) []Facet {
	return []Facet{
		facet("big", bigRule, 1600, 60000, genBig, func(c *bigCase) error { return check(c.lex()) }, bigNontrivial, bigClasses),
		facet("characters", charRule, 40000, 1000000, genChars, func(c *charCase) error { return check(c.lex()) },
			func(c *charCase) bool { return lexNontrivial(c.lex()) }, func(c *charCase) []string { return nil }),
	}
}
