package inject_test

import (
	"fmt"
	"go/ast"
	"go/token"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

func isMark(s *sx) bool {
	v, err := strconv.Unquote(s.op)
	return err == nil && strings.HasPrefix(v, "@")
}

func marked(s *sx) bool {
	found := false
	s.each(func(k *sx) bool {
		found = found || isMark(k)
		return !found
	})
	return found
}

func injectedCall(s *sx, names ...string) bool {
	if s.op != "CallExpr" || s.kid("Fun") == nil {
		return false
	}
	f := s.kid("Fun").op
	for _, n := range names {
		if f == "q:"+wInst+"."+n {
			for _, a := range s.all("Args") {
				if isMark(a) {
					return true
				}
			}
		}
	}
	return false
}

// strip removes what the generated aspects add and undoes what they replace,
// wherever it is, and tells the removed pieces.
func strip(s *sx, removed *[]*sx) *sx {
	drop := func(k *sx) { *removed = append(*removed, k) }
	switch {
	case injectedCall(s, "Wrap"):
		drop(s)
		return as(strip(s.all("Args")[0], removed), s.prop)
	case injectedCall(s, "Num", "Str"):
		if a := s.all("Args"); len(a) == 2 && isMark(a[0]) {
			drop(s)
			return as(strip(a[1], removed), s.prop)
		}
	case injectedCall(s, "Call"):
		drop(s)
		body := s.all("Args")[0].kid("Body")
		return as(strip(body.kids[0].kid("Results"), removed), s.prop)
	}
	if f := s.kid("Fun"); s.op == "CallExpr..." && f != nil && f.op == "FuncLit" {
		// Arguments packed anew.
		if b := f.kid("Body"); b != nil && len(b.kids) == 1 && b.kids[0].op == "ReturnStmt" && len(b.kids[0].kids) == 1 && marked(b) {
			if r := b.kids[0].kids[0]; r.op == "CallExpr" && r.kid("Fun").op == "n:append" {
				drop(f)
				return as(strip(s.kid("Args"), removed), s.prop)
			}
		}
	}
	out := *s
	out.kids = nil
	if s.op == "q:"+wInst+".Add" || s.op == "q:"+wInst+".Sum" || s.op == "q:"+wInst+".New" {
		out.op = strings.Replace(s.op, wInst, wLib, 1)
	}
	head := true
	for _, k := range s.kids {
		switch {
		case s.op == "BlockStmt" && head && k.op == "BlockStmt" && marked(k) && !userMarks(k):
			drop(k)
			continue
		case (s.op == "CallExpr" || s.op == "CallExpr...") && k.prop == "Args" && injectedCall(k, "Opt", "Int"):
			drop(k)
			continue
		case s.op == "FieldList" && k.op == "Field" && k.kid("Names") != nil && strings.HasPrefix(k.kid("Names").op, "n:zzF"):
			drop(k)
			continue
		case s.op == "File" && zzDecl(k):
			drop(k)
			continue
		case s.op == "ValueSpec" && k.prop == "Values" && injectedCall(k, "Int"):
			drop(k)
			out.op = "ValueSpec assigned"
			continue
		}
		if k.op != "BlockStmt" {
			head = false
		}
		out.kids = append(out.kids, strip(k, removed))
	}
	return &out
}

func as(s *sx, prop string) *sx {
	c := *s
	c.prop = prop
	return &c
}

// userMarks tells whether there are calls of the program's own tracing in a block.
func userMarks(s *sx) bool {
	found := false
	s.each(func(k *sx) bool {
		found = found || strings.HasPrefix(k.op, "self.")
		return !found
	})
	return found
}

func zzDecl(k *sx) bool {
	if k.op == "FuncDecl" && strings.HasPrefix(k.kid("Name").op, "self.zz") {
		return true
	}
	if !strings.HasPrefix(k.op, "GenDecl") {
		return false
	}
	for _, sp := range k.kids {
		if n := sp.kid("Names"); n != nil && strings.HasPrefix(n.op, "self.zz") {
			return true
		}
		if n := sp.kid("Name"); n != nil && strings.HasPrefix(n.op, "self.zz") {
			return true
		}
		if v := sp.kid("Values"); v != nil && strings.HasPrefix(v.op, "self.zzA") {
			return true
		}
	}
	return false
}

// assigned drops the values of the variables whose value was replaced.
func forgetAssigned(orig, got *sx) *sx {
	out := *orig
	out.kids = nil
	skip := got != nil && got.op == "ValueSpec assigned"
	if skip {
		out.op = got.op
	}
	j := 0
	for _, k := range orig.kids {
		if skip && k.prop == "Values" {
			continue
		}
		var g *sx
		if got != nil && j < len(got.kids) {
			g = got.kids[j]
		}
		j++
		out.kids = append(out.kids, forgetAssigned(k, g))
	}
	return &out
}

// leaves lists the positions of names and literals in the text of a file.
func leaves(s *sx) []token.Pos {
	var out []token.Pos
	s.each(func(k *sx) bool {
		if len(k.kids) == 0 && k.user != nil {
			switch n := k.user.(type) {
			case *ast.Ident, *ast.BasicLit, *ast.SelectorExpr:
				out = append(out, n.Pos())
			}
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

type placed struct {
	text string
	at   int // names and literals before it
}

// comments lists the comments of a file other than line directives, each with
// how many names and literals of the program come before it.
func comments(f *ast.File, ls []token.Pos, skip []*sx) []placed {
	inImports := func(p token.Pos) bool {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && gd.Pos() <= p && p < gd.End() {
				return true
			}
		}
		return false
	}
	within := func(p token.Pos) bool {
		for _, k := range skip {
			if k.user != nil && k.user.Pos() <= p && p < k.user.End() {
				switch k.user.(type) {
				case *ast.BlockStmt, *ast.GenDecl, *ast.FuncDecl:
					return true
				}
			}
			if fd, ok := k.user.(*ast.FuncDecl); ok && fd.Doc != nil && fd.Doc.Pos() <= p && p <= fd.Doc.End() {
				return true
			}
		}
		return false
	}
	var out []placed
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//line ") || strings.HasPrefix(c.Text, "/*line ") || c.Text == "//" || within(c.Pos()) {
				continue
			}
			n := sort.Search(len(ls), func(i int) bool { return ls[i] >= c.Pos() })
			if inImports(c.Pos()) {
				continue // they may go with an import that was listed twice
			}
			// Formatting changes the spaces, and the lines of documentation.
			words := strings.Fields(strings.NewReplacer("/*", " /* ", "*/", " */ ").Replace(c.Text))
			out = append(out, placed{strings.Join(words, " "), n})
		}
	}
	return out
}

func importsOf(f *ast.File) []string {
	var out []string
	for _, im := range f.Imports {
		n := ""
		if im.Name != nil {
			n = im.Name.Name + " "
		}
		out = append(out, n+im.Path.Value)
	}
	return out
}

func TestC02_OnlyMatchedCodeChanges(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages rich in comments, directives and odd formatting, woven with random aspects; the woven files without what the aspects add must be the original ones: same syntax, same comments at the same places, same imports retained, files without a match not rewritten; non-trivial: a file with comments was rewritten",
		Quick: 1400, Thorough: 5600,
	}, func(c *vh.Case) {
		w := weave(c, ilib.GenOpts{Files: 2, Funcs: 2, Depth: 2, Comments: keepComments, CommentPct: 15, TrailingPct: 6, Shadow: shadowNames, Unformatted: true}, nil, nil)
		if w.bad {
			return
		}
		for _, n := range (&ilib.Prog{Files: w.files}).Names() {
			_, rewritten := w.res.Files[n]
			any := false
			for _, k := range w.want[n].applied {
				any = any || k > 0
			}
			if rewritten && !any {
				c.Violation("no aspect matches in %s, but it is rewritten\n%s", n, w.res.Files[n])
			}
			if !rewritten || w.chk == nil {
				if w.chk == nil {
					c.Violation("the woven package does not compile: %v\n%s\n=====\n%s", w.chkErr, aspectsYAML(w.as), (&ilib.Prog{Files: w.res.Files}).Text())
				}
				continue
			}
			orig, _ := dumpFile(w.orig, n)
			full, _ := dumpFile(w.chk, n)
			var removed []*sx
			got := strip(full, &removed)
			if a, b := forgetAssigned(orig, got).text(), got.text(); a != b {
				c.Violation("%s: more than the aspects' code was changed\n%s\n%s\n=====\n%s", n, aspectsYAML(w.as), diffText(a, b), w.res.Files[n])
			}
			kept := forgetAssigned(orig, got)
			a, b := comments(w.orig.Files[n], leaves(kept), nil), comments(w.chk.Files[n], leaves(got), removed)
			if x, y := placedText(a), placedText(b); x != y && w.want[n].kinds["assign"] == 0 {
				c.Violation("%s: comments are not where they were\n%s\n%s\n=====\n%s", n, aspectsYAML(w.as), diffText(x, y), w.res.Files[n])
			}
			if x, y := directives(w.orig.Files[n]), directives(w.chk.Files[n]); x != y && w.want[n].kinds["decls"] == 0 {
				c.Violation("%s: compiler directives changed: %s\nnow: %s\n%s\n=====\n%s", n, x, y, aspectsYAML(w.as), w.res.Files[n])
			}
			have := map[string]bool{}
			for _, im := range w.chk.Files[n].Imports {
				have[im.Path.Value] = true
			}
			for _, im := range w.orig.Files[n].Imports {
				if !have[im.Path.Value] && w.want[n].kinds["assign"]+w.want[n].kinds["replace"] == 0 {
					c.Violation("%s no longer imports %s\n%s\n=====\n%s", n, im.Path.Value, aspectsYAML(w.as), w.res.Files[n])
				}
			}
			if len(a) > 0 && any {
				c.Class("rewritten with comments")
				c.Nontrivial(w.res.Files[n])
			}
		}
	})
}

var directive = regexp.MustCompile(`^//[a-z0-9]+:[a-z0-9]`)

func placedText(ps []placed) string {
	var b strings.Builder
	// Formatting moves the directives to the end of a declaration's comment.
	sort.SliceStable(ps, func(i, j int) bool {
		if ps[i].at != ps[j].at {
			return ps[i].at < ps[j].at
		}
		return !directive.MatchString(ps[i].text) && directive.MatchString(ps[j].text)
	})
	for _, p := range ps {
		fmt.Fprintf(&b, "%d %q\n", p.at, p.text)
	}
	return b.String()
}

// directives lists the //go: directives that govern each declaration and the file.
func directives(f *ast.File) string {
	var b strings.Builder
	list := func(name string, g *ast.CommentGroup) {
		if g == nil {
			return
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") {
				fmt.Fprintf(&b, "%s: %s\n", name, c.Text)
			}
		}
	}
	for _, g := range f.Comments {
		if g.End() < f.Package {
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:build") {
					fmt.Fprintf(&b, "file: %s\n", c.Text)
				}
			}
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			list(d.Name.Name, d.Doc)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					list(s.Names[0].Name, d.Doc)
					list(s.Names[0].Name, s.Doc)
				case *ast.TypeSpec:
					list(s.Name.Name, d.Doc)
					list(s.Name.Name, s.Doc)
				}
			}
		}
	}
	return b.String()
}

var keepComments = []string{"// a comment", "//go:noinline", "// two\n// lines", "/* block */", "/* block\n   of lines */", "//nolint:all", "//verif:mark a:b", "//go:nosplit"}
