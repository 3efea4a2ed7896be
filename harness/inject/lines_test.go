package inject_test

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/injector/parse"
	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// where is the place a node is reported at.
func where(fset *token.FileSet, p token.Pos, dir string) string {
	at := fset.PositionFor(p, true)
	if !filepath.IsAbs(at.Filename) {
		at.Filename = filepath.Join(dir, at.Filename)
	}
	return fmt.Sprintf("%s:%d", at.Filename, at.Line)
}

// pairs walks two trees that are the same.
func pairs(a, b *sx, f func(a, b *sx)) {
	f(a, b)
	if len(a.kids) != len(b.kids) {
		return
	}
	for i := range a.kids {
		pairs(a.kids[i], b.kids[i], f)
	}
}

func TestC04_LinesAreKept(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages (comments, blank lines, odd formatting, functions on one line, expressions over several lines) woven with random aspects; every name and literal that comes from the user's file is reported, with line directives applied, where it is in that file; non-trivial: a rewritten file in which some token moved",
		Quick: 1400, Thorough: 5600,
	}, func(c *vh.Case) {
		w := weave(c, ilib.GenOpts{Files: 2, Funcs: 2, Depth: 2, Comments: keepComments, CommentPct: 10, TrailingPct: 6, Shadow: shadowNames, Unformatted: rapid.IntRange(0, 9).Draw(c.T, "unformatted") == 0}, nil, func(g *weaveGen, w *woven) {
			if g.n(3) == 0 {
				ownDirectives(g, w)
			}
		})
		if w.bad {
			return
		}
		if w.chk == nil {
			c.Violation("the woven package does not compile: %v\n%s\n=====\n%s", w.chkErr, aspectsYAML(w.as), (&ilib.Prog{Files: w.res.Files}).Text())
		}
		for _, n := range (&ilib.Prog{Files: w.files}).Names() {
			if _, ok := w.res.Files[n]; !ok {
				continue
			}
			orig, _ := dumpFile(w.orig, n)
			full, _ := dumpFile(w.chk, n)
			var removed []*sx
			got := strip(full, &removed)
			kept := forgetAssigned(orig, got)
			if kept.text() != got.text() {
				c.Class("not comparable")
				continue
			}
			moved := 0
			at := map[any]string{} // where nodes of the woven file are in the original one
			pairs(kept, got, func(a, b *sx) {
				if a.user == nil || b.user == nil {
					return
				}
				at[b.user] = where(w.orig.Fset, a.user.Pos(), w.res.Dir)
				switch a.user.(type) {
				case *ast.File, *ast.FieldList,
					// They start with another node, which may be an injected one.
					*ast.AssignStmt, *ast.BinaryExpr, *ast.CallExpr, *ast.ExprStmt, *ast.Field, *ast.IncDecStmt, *ast.IndexExpr,
					*ast.IndexListExpr, *ast.KeyValueExpr, *ast.LabeledStmt, *ast.SendStmt, *ast.SliceExpr,
					*ast.TypeAssertExpr, *ast.TypeSpec, *ast.ValueSpec:
					return
				case *ast.SelectorExpr:
					if len(a.kids) > 0 {
						return
					}
				}
				x, y := where(w.orig.Fset, a.user.Pos(), w.res.Dir), where(w.chk.Fset, b.user.Pos(), w.res.Dir)
				if x != y && !(unformatted(w.files[n]) && vh.Known("C04", "unformatted")) {
					c.Violation("%s: %s at %s is reported at %s\n%s\n=====\n%s", n, a.op, x, y, aspectsYAML(w.as), w.res.Files[n])
				}
				if w.orig.Fset.PositionFor(a.user.Pos(), false).Line != w.chk.Fset.PositionFor(b.user.Pos(), false).Line {
					moved++
				}
			})
			for _, r := range removed {
				own := wrappedLines(w, r, at)
				r.each(func(k *sx) bool {
					if k.user == nil || len(k.kids) > 0 {
						return true
					}
					switch k.user.(type) {
					case *ast.Ident, *ast.BasicLit, *ast.SelectorExpr:
					default:
						return true
					}
					at := w.chk.Fset.PositionFor(k.user.Pos(), true)
					if filepath.Base(at.Filename) != "<generated>" && !own[where(w.chk.Fset, k.user.Pos(), w.res.Dir)] &&
						!(afterInert(w, n, k.user.Pos()) && vh.Known("C04", "inert-directive")) {
						c.Violation("%s: injected %s is reported at %s\n%s\n=====\n%s", n, k.op, at, aspectsYAML(w.as), w.res.Files[n])
					}
					return true
				})
			}
			if moved > 0 {
				c.Nontrivial(w.res.Files[n])
			}
		}
	})
}

func unformatted(src string) bool {
	f, err := format.Source([]byte(src))
	return err != nil || string(f) != src
}

// afterInert tells whether the last line directive before a position does not start its line.
func afterInert(w *woven, n string, p token.Pos) bool {
	inert := false
	for _, g := range w.chk.Files[n].Comments {
		for _, c := range g.List {
			if c.Pos() < p && strings.HasPrefix(c.Text, "//line ") {
				inert = w.chk.Fset.PositionFor(c.Pos(), false).Column != 1
			}
		}
	}
	return inert
}

// ownDirectives adds line directives to the sources, at places where they leave the code formatted.
func ownDirectives(g *weaveGen, w *woven) {
	out := map[string]string{}
	for n, src := range w.files {
		out[n] = src
	}
	names := (&ilib.Prog{Files: out}).Names()
	for k := 1 + g.n(4); k > 0; k-- {
		n := names[g.n(len(names))]
		lines := strings.SplitAfter(out[n], "\n")
		i := g.n(len(lines))
		if g.n(2) == 0 {
			// Above a function, which code may be added to.
			for j := range lines {
				if j = (i + j) % len(lines); strings.HasPrefix(lines[j], "func ") {
					i = j
					break
				}
			}
		}
		d := g.pick([]string{"//line /x/gen.y:%d\n", "//line gen.y:%d\n", "//line /x/gen.y:%d:3\n", "//line :%d:1\n", "/*line /x/inline.y:%d:1*/"})
		num := 1 + g.n(200)
		if g.n(2) == 0 {
			num = 1 + g.n(4) // as the first lines of injected code
		}
		d = fmt.Sprintf(d, num)
		if strings.HasPrefix(d, "/*") {
			ind := len(lines[i]) - len(strings.TrimLeft(lines[i], "\t"))
			lines[i] = lines[i][:ind] + d + lines[i][ind:]
		} else {
			lines[i] = d + lines[i]
		}
		src := strings.Join(lines, "")
		if f, err := format.Source([]byte(src)); err == nil && string(f) == src {
			if _, err := parser.ParseFile(token.NewFileSet(), n, src, 0); err == nil {
				out[n] = src
			}
		}
	}
	w.files = out
}

// wrappedLines are the lines of the user's nodes which injected code is around, the original and the reported ones.
func wrappedLines(w *woven, r *sx, at map[any]string) map[string]bool {
	out := map[string]bool{}
	var inner []*sx
	var removed []*sx
	if k := strip(r, &removed); k.user != r.user {
		inner = append(inner, k)
	}
	for _, k := range inner {
		k.each(func(k *sx) bool {
			if k.user != nil {
				out[where(w.chk.Fset, k.user.Pos(), w.res.Dir)] = true
				out[at[k.user]] = true
			}
			return true
		})
	}
	return out
}

func cutNumber(s string) (string, int, bool) {
	i := strings.LastIndex(s, ":")
	if i < 0 {
		return s, 0, false
	}
	n, err := strconv.Atoi(s[i+1:])
	if err != nil || strings.Trim(s[i+1:], "0123456789") != "" {
		return s, 0, false
	}
	return s[:i], n, true
}

func TestC04_FirstLine(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "random first lines of files, directives and other text, with every line ending and at the end of the file; a directive that places the file at the start of another file is consumed and gives that name, everything else is left to be read again, and nothing crashes; non-trivial: the line is a line directive",
		Quick: 20000, Thorough: 200000,
	}, func(c *vh.Case) {
		head := rapid.SampledFrom([]string{"//line ", "//line ", "//line ", "//line ", "//line", "// line ", "//LINE ", "", "package x"}).Draw(c.T, "head")
		text := rapid.StringMatching(`[ \t]?[a-z0-9/.\\: é]{0,9}(:[0-9]{1,3}|:1|:01)?(:[0-9]{1,2}|:1)?[ \t]?`).Draw(c.T, "text")
		sep := rapid.SampledFrom([]string{"\n", "\r\n", "\n", ""}).Draw(c.T, "sep")
		rest := ""
		if sep != "" {
			rest = rapid.SampledFrom([]string{"package x\n", "", "\n", "//line b.go:1\n"}).Draw(c.T, "rest")
		}
		src := head + text + sep + rest
		c.Desc(src)
		r := strings.NewReader(src)
		name, err := parse.ConsumeLineDirective(r)
		if err != nil {
			c.Violation("%q: %v", src, err)
		}
		left, _ := io.ReadAll(r)
		want, keep := "", src
		if text, ok := strings.CutPrefix(head+text, "//line "); ok {
			c.Nontrivial(src)
			text = strings.TrimSpace(text)
			r1, n1, ok1 := cutNumber(text)
			r2, n2, ok2 := cutNumber(r1)
			switch {
			case !ok1:
				want, keep = text, rest
			case n1 == 1 && !ok2:
				want, keep = r1, rest
			case n1 == 1 && n2 == 1:
				want, keep = r2, rest
			}
			if want == "" && keep == rest {
				return // no file name: either way is fine
			}
		}
		if name != want || string(left) != keep {
			c.Violation("%q: read as a directive for %q leaving %q, expected %q leaving %q", src, name, left, want, keep)
		}
	})
}
