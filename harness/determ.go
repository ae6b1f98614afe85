package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// P18: the result is a function of the input

type detCase struct {
	Sources  []totalCase `json:"sources"`
	Schedule []int       `json:"schedule"`
	Cold     bool        `json:"cold,omitempty"` // nothing is parsed before the sources are parsed at once
	Feats    []string    `json:"feats,omitempty"`
}

var usurpNames = strings.Fields("Integer Char Boolean String Real Variant Pointer Byte Int64 AnsiString")

// usurp gives one name of the text the name of a built-in type.
func usurp(t *rapid.T, text string) string {
	rs := []rune(text)
	toks := realToks(rs)
	var names []string
	for _, k := range toks {
		if k.typ == token.Identifier {
			names = append(names, strings.ToLower(string(rs[k.start:k.end])))
		}
	}
	if len(names) == 0 {
		return text
	}
	old, name := names[uniform(t, len(names)-1)], pick(t, "builtin", usurpNames)
	var sb strings.Builder
	last := 0
	for _, k := range toks {
		if k.typ == token.Identifier && strings.ToLower(string(rs[k.start:k.end])) == old {
			sb.WriteString(string(rs[last:k.start]))
			sb.WriteString(name)
			last = k.end
		}
	}
	sb.WriteString(string(rs[last:]))
	return sb.String()
}

func genDetSource(t *rapid.T) totalCase {
	switch uniform(t, 7) {
	case 6:
		// declarations which are well-formed but wrong
		switch uniform(t, 3) {
		case 0:
			if c := genDup(t); len(c.Bad) > 0 {
				return totalCase{Kind: c.Kind, Class: "declared twice", Text: pick(t, "bad", c.Bad)}
			}
		case 1:
			if c := genKinds(t); c.Kind != "project" && len(c.Files) > 0 {
				return totalCase{Kind: c.Kind, Class: "kinds", Text: c.Files[0].Text}
			}
		}
		bad := strings.ReplaceAll(pick(t, "wrong declaration", badDecls), "<", "")
		if uniform(t, 2) == 0 {
			bad = "type TFwd = class ; TFwd = " + pick(t, "type", strings.Split("Integer|^Integer|array of Real|set of Byte|( one , two )|1 .. 5|string|record a , b : Char end|procedure ( x : Real )|file of Char|class of TObject|packed array [ 0 .. 1 ] of Boolean", "|")) + " ;"
		}
		return totalCase{Kind: "program", Class: "wrong declaration", Text: "program Main ; " + bad + " begin end ."}
	case 7:
		w := genWrong(t)
		return totalCase{Kind: w.Kind, Class: "wrong", Text: w.Text}
	case 0:
		return genTotalSoup(t)
	case 1, 2:
		c := genTotalMutant(t)
		if uniform(t, 2) == 0 {
			c.Text = usurp(t, c.Text)
			c.Class += ", usurped"
		}
		return c
	}
	s := genSrc(modePlain, profile{fuel: 60, units: 5, setup: mixedProfile().setup})(t)
	c := totalCase{Kind: s.Kind, Class: "correct", Text: s.Text}
	if uniform(t, 2) == 0 {
		c.Text = usurp(t, c.Text)
		c.Class = "usurped"
	}
	return c
}

// freshen gives most names of the text another ending, and another spelling to
// the others, so that they haven't been seen before.
func freshen(t *rapid.T, text string) string {
	rs := []rune(text)
	tail := ""
	for i := 0; i < 5; i++ {
		tail += string(rune('A' + uniform(t, 25)))
	}
	var sb strings.Builder
	last := 0
	for _, k := range realToks(rs) {
		w := string(rs[k.start:k.end])
		if k.typ != token.Identifier || !isASCII(w) {
			continue
		}
		sb.WriteString(string(rs[last:k.start]))
		last = k.end
		if _, ok := builtins[strings.ToLower(w)]; ok || isDirectiveWord(w) {
			b := []byte(w)
			for i := range b {
				if uniform(t, 1) == 0 && (b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z') {
					b[i] ^= 0x20
				}
			}
			w = string(b)
		} else {
			w += tail
		}
		sb.WriteString(w)
	}
	sb.WriteString(string(rs[last:]))
	return sb.String()
}

func genDetCold(t *rapid.T) detCase {
	c := genDet(t)
	c.Cold = uniform(t, 3) > 0
	for i := range c.Sources {
		c.Sources[i].Text = freshen(t, c.Sources[i].Text)
	}
	return c
}

func genDet(t *rapid.T) detCase {
	c := detCase{}
	n := 2 + uniform(t, 2)
	for i := 0; i < n; i++ {
		c.Sources = append(c.Sources, genDetSource(t))
	}
	m := 4 + uniform(t, 6)
	for i := 0; i < m; i++ {
		c.Schedule = append(c.Schedule, uniform(t, n-1))
	}
	return c
}

// outcome is the tree with its positions and references, or the error.
func outcome(c totalCase) string {
	if f := entryPoints[c.Kind]; f != nil {
		rs := []rune(c.Text)
		p := parser.NewParser(parser.NewProgramContext(progPath))
		p.SetText(&rs)
		p.NextToken()
		if _, err := f.run(p); err != nil {
			return "error: " + err.Error()
		}
		return "accepted"
	}
	root, err := parseText(c.Kind, c.Text)
	if err != nil {
		return "error: " + err.Error()
	}
	return dumpRoot(root, modeLoc) + "\n" + dumpRoot(root, modeRefs)
}

func identName(m *astcore.Ident) string {
	if m == nil {
		return "(nil)"
	}
	return m.Name
}

// embedded describes the built-in types.
func embedded() string {
	var sb strings.Builder
	for _, n := range append(append([]string{}, sortedBuiltins...), "TA", "TB", "TC", "a", "b", "x", "TObject", "TFoo", "UnitA", "SysUtils") {
		d := ast.EmbeddedTypeDeclMap.Get(n)
		if d == nil {
			fmt.Fprintf(&sb, "%s: none\n", n)
			continue
		}
		fmt.Fprintf(&sb, "%s: %p %p %s %p", n, d, d.Ident, identName(d.Ident), d.Node)
		if td, ok := d.Node.(*ast.TypeDecl); ok && td != nil {
			fmt.Fprintf(&sb, " %s %p", identName(td.Ident), td.Type)
			if te, ok := td.Type.(*ast.TypeEmbedded); ok && te != nil {
				fmt.Fprintf(&sb, " %d %s", te.Kind, identName(te.Ident))
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

var sortedBuiltins = func() []string {
	var r []string
	for k := range builtins {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}()

var embeddedAtStart = embedded()

func checkEmbedded() error {
	if now := embedded(); now != embeddedAtStart {
		return diffErr("the built-in types: they", now, embeddedAtStart)
	}
	return nil
}

func checkRepeat(c *detCase) error {
	first := map[int]string{}
	for k, i := range c.Schedule {
		got := outcome(c.Sources[i])
		if want, ok := first[i]; !ok {
			first[i] = got
		} else if got != want {
			return diffErr(fmt.Sprintf("the outcome of source %d at step %d", i, k), got, want)
		}
	}
	return checkEmbedded()
}

func checkConcurrent(c *detCase) error {
	want := make([]string, len(c.Sources))
	alone := func() {
		for i := range c.Sources {
			want[i] = outcome(c.Sources[i])
		}
	}
	if !c.Cold {
		alone()
	}
	got := make([]string, len(c.Schedule))
	if err := parallel(len(c.Schedule), func(k int) error {
		got[k] = outcome(c.Sources[c.Schedule[k]])
		return nil
	}); err != nil {
		return err
	}
	if c.Cold {
		alone()
	}
	for k, i := range c.Schedule {
		if got[k] != want[i] {
			return diffErr(fmt.Sprintf("the outcome of source %d, parsed together with others,", i), got[k], want[i])
		}
	}
	return nil
}

// parallel runs the functions at once. A panic is an error.
func parallel(n int, f func(k int) error) error {
	errs := make([]error, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[k] = fmt.Errorf("panic: %v", r)
				}
			}()
			<-start
			errs[k] = f(k)
		}(k)
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// Projects, of which none, one or several files are wrong

type detProjCase struct {
	Files  []projFile `json:"files"`
	Faults int        `json:"faults"`
	Feats  []string   `json:"feats,omitempty"`
}

func genDetProj(t *rapid.T) detProjCase {
	pc := genProject(modePlain, 1, 4, func(g *G) { g.opts.maxDecls, g.opts.bodyFuel = 2, 6 })(t)
	c := detProjCase{Files: pc.Files, Feats: pc.Feats}
	if n := uniform(t, 4); n > 1 {
		c.Faults = n - 1
	}
	for i := 0; i < c.Faults; i++ {
		f := &c.Files[uniform(t, len(c.Files)-1)]
		rs := []rune(f.Text)
		toks := realToks(rs)
		if len(toks) == 0 {
			continue
		}
		k := toks[uniform(t, len(toks)-1)]
		f.Text = string(rs[:k.start]) + " " + pick(t, "tok", []string{"?", "then", "begin", ";", ")", "type", "end", "program", ""}) + " " + string(rs[k.end:])
	}
	return c
}

func projOutcome(c *detProjCase) string {
	prog, err := parser.ParseProgram(progPath)
	if err != nil {
		return "error: " + err.Error()
	}
	var sb strings.Builder
	for _, mode := range []string{modeLoc, modeRefs} {
		ds, err := projDumps(prog, c.Files, mode)
		if err != nil {
			return "dump: " + err.Error()
		}
		for _, d := range ds {
			sb.WriteString(d)
			sb.WriteString("\n")
		}
	}
	for _, u := range prog.Units {
		sb.WriteString(u.Path + " " + u.Ident.Name + "\n")
	}
	return sb.String()
}

func checkDetProj(c *detProjCase) error {
	return withProject(c.Files, func() error {
		before, err := listFiles()
		if err != nil {
			return err
		}
		want := projOutcome(c)
		for i := 0; i < 3; i++ {
			if got := projOutcome(c); got != want {
				return diffErr("the outcome of the project, loaded again,", got, want)
			}
		}
		if err := parallel(4, func(int) error {
			if got := projOutcome(c); got != want {
				return diffErr("the outcome of the project, loaded several times at once,", got, want)
			}
			return nil
		}); err != nil {
			return err
		}
		after, err := listFiles()
		if err != nil {
			return err
		}
		if before != after {
			return fmt.Errorf("loading the project changed its files: %s / %s", before, after)
		}
		return checkEmbedded()
	})
}

// Projects whose files change between two loads

type detStep struct {
	Which int `json:"which"`         // the project
	File  int `json:"file"`          // with a bad character in this file, if Bad isn't 0,
	Bad   int `json:"bad,omitempty"` // at this index
}

type detChangeCase struct {
	Projects []projCase `json:"projects"`
	Steps    []detStep  `json:"steps"`
}

func genDetChange(t *rapid.T) detChangeCase {
	gen := genProject(pick(t, "mode", []string{modeRefs, modePlain, modeLoc}), 1, 3, func(g *G) { g.opts.maxDecls, g.opts.bodyFuel = 2, 6 })
	c := detChangeCase{Projects: []projCase{gen(t), gen(t)}}
	n := 2 + uniform(t, 4)
	for i := 0; i < n; i++ {
		st := detStep{Which: uniform(t, 1)}
		if uniform(t, 2) == 0 {
			fs := c.Projects[st.Which].Files
			st.File = uniform(t, len(fs)-1)
			rs := []rune(fs[st.File].Text)
			toks := realToks(rs)
			for i, k := range toks {
				if strings.EqualFold(string(rs[k.start:k.end]), "asm") {
					toks = toks[:i] // anything can be in the statement
					break
				}
			}
			k := toks[uniform(t, len(toks)-1)]
			if k.typ == token.Identifier && rs[k.start] < 0x80 {
				st.Bad = k.start
			}
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func checkDetChange(c *detChangeCase) error {
	// The files of the projects with the same path get the same size and time.
	size := map[string]int{}
	for _, p := range c.Projects {
		for _, f := range p.Files {
			b, err := sjis([]rune(f.Text))
			if err != nil {
				return envErr(err)
			}
			if len(b) > size[f.Path] {
				size[f.Path] = len(b)
			}
		}
	}
	return withProject(nil, func() error {
		for i, st := range c.Steps {
			p := c.Projects[st.Which]
			for k, f := range p.Files {
				rs := []rune(f.Text)
				if st.Bad > 0 && k == st.File {
					rs[st.Bad] = '?'
				}
				b, err := sjis(rs)
				if err != nil {
					return envErr(err)
				}
				f.Text = string(rs) + strings.Repeat(" ", size[f.Path]-len(b))
				if err := writeFiles([]projFile{f}); err != nil {
					return err
				}
				tm := time.Unix(1700000000, 0)
				if err := os.Chtimes(filepath.FromSlash(f.Path), tm, tm); err != nil {
					return envErr(err)
				}
			}
			if st.Bad > 0 {
				if _, err := parser.ParseProgram(progPath); err == nil {
					return fmt.Errorf("load %d: %s is accepted with a character which belongs to no token", i+1, p.Files[st.File].Path)
				}
			} else if err := checkLoaded(&p); err != nil {
				return fmt.Errorf("load %d, after the files were written again: %w", i+1, err)
			}
		}
		return nil
	})
}

// listFiles gives the names and sizes of the files of the project.
func listFiles() (string, error) {
	var sb strings.Builder
	err := filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			fmt.Fprintf(&sb, "%s:%d ", p, fi.Size())
		}
		return err
	})
	return sb.String(), envErr(err)
}

func init() {
	nt := func(c *detCase) bool {
		n := 0
		for i := range c.Sources {
			if totalNontrivial(&c.Sources[i]) {
				n++
			}
		}
		return n >= 2
	}
	cl := func(c *detCase) []string {
		r := []string{}
		for i := range c.Sources {
			r = append(r, totalClasses(&c.Sources[i])...)
		}
		return r
	}
	properties = append(properties,
		&Property{ID: "P18", Facets: []Facet{
			facet("repeat", "2 to 4 sources (correct, changed, redeclaring built-in types, token soup), parsed one after another 4 to 10 times in random order; non-trivial: at least 2 of them have 6 or more tokens", 8000, 400000, genDet, checkRepeat, nt, cl),
			facet("concurrent", "2 to 4 sources parsed 4 to 10 times at once, under the race detector, mostly with names never seen before and without parsing them alone first; non-trivial: at least 2 of them have 6 or more tokens", 6000, 300000, genDetCold, checkConcurrent, nt, cl),
			facet("projects", "projects of 2 to 5 files, of which up to 3 have an error, loaded 4 times one after another and 4 times at once; non-trivial: at least 3 files", 1500, 80000,
				genDetProj, checkDetProj, func(c *detProjCase) bool { return len(c.Files) > 2 }, func(c *detProjCase) []string { return append([]string{fmt.Sprintf("%d faults", c.Faults)}, c.Feats...) }),
			facet("changed", "two projects with expected trees, and their changes by a bad character, written one over the other (files of a path with the same size and time) and loaded 2 to 6 times; non-trivial: both are loaded and they have the path of a unit in common", 3000, 80000,
				genDetChange, checkDetChange, func(c *detChangeCase) bool {
					seen := map[int]bool{}
					for _, s := range c.Steps {
						seen[s.Which] = true
					}
					common := false
					for _, a := range c.Projects[0].Files[1:] {
						for _, b := range c.Projects[1].Files[1:] {
							common = common || a.Path == b.Path
						}
					}
					return len(seen) == 2 && common
				}, func(c *detChangeCase) []string {
					r := []string{fmt.Sprintf("%d loads", len(c.Steps))}
					for _, s := range c.Steps {
						if s.Bad > 0 {
							r = append(r, "with a bad file")
							break
						}
					}
					return r
				}),
		}},
	)
}

var directiveWords = func() map[string]bool {
	r := map[string]bool{}
	for _, w := range directiveWordList {
		r[w] = true
	}
	return r
}()

func isDirectiveWord(w string) bool { return directiveWords[strings.ToUpper(w)] }
