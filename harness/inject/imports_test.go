package inject_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var clashNames = append([]string{"Twice", "Enter", "On", "i", "instrument"}, shadowNames...)

func TestC03_NamesMeanWhatTemplatesSay(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "random packages whose variables, parameters, functions, types and import names take the names that templates use, some packages imported several times or under other names; woven with random aspects whose templates use random import names and language levels; the result must compile, every name in injected code must mean the package the template's imports say (by the type checker's resolution), every package newly needed must be reported, and the language level must be the highest asked for; non-trivial: advice with imports was applied at two or more places",
		Quick: 1400, Thorough: 5600,
	}, func(c *vh.Case) {
		w := weave(c, ilib.GenOpts{Files: 2, Funcs: 2, Depth: 2, Shadow: clashNames, Clash: true, Unformatted: true}, map[string]int{"wrap": 3, "prepend": 3, "append": 2}, nil)
		if w.bad {
			c.Class("unsuitable")
			return
		}
		if w.chk == nil {
			c.Violation("the woven package does not compile: %v\n%s", w.chkErr, aspectsYAML(w.as))
		}
		uses, links, had := map[string]bool{}, map[string]bool{}, map[string]bool{}
		lang := ""
		for _, n := range (&ilib.Prog{Files: w.files}).Names() {
			e := w.want[n]
			got, _ := dumpFile(w.chk, n)
			if a, b := e.file.text(), got.text(); a != b {
				c.Violation("%s: injected names mean something else\n%s\n%s\n=====\n%s", n, aspectsYAML(w.as), diffText(a, b), w.res.Files[n])
			}
			for k := range e.uses {
				uses[k] = true
			}
			for k := range e.links {
				links[k] = true
			}
			if e.lang > lang {
				lang = e.lang
			}
			for _, im := range w.orig.Files[n].Imports {
				had[strings.Trim(im.Path.Value, `"`)] = true
			}
		}
		if got := w.res.Lang.String(); got != lang {
			c.Violation("the injected code asks for language level %q, but the result is %q\n%s", lang, got, aspectsYAML(w.as))
		}
		_ = links
		refs := map[string]bool{}
		for _, m := range w.res.Refs {
			for p := range m {
				refs[p] = true
			}
		}
		for _, p := range keysOf(uses) {
			if !had[p] && !refs[p] && p != "unsafe" {
				c.Violation("the injected code uses %s, which the package did not import, but it is not among the reported references %v\n%s", p, keysOf(refs), aspectsYAML(w.as))
			}
		}
		if w.applied() >= 2 && len(uses) > 0 {
			c.Nontrivial(fmt.Sprint(w.applied(), aspectsYAML(w.as)))
		}
	})
}
