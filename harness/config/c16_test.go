package config_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/injector/aspect"
	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// weave weaves a program with the aspects, to see it does not crash.
func weave(c *vh.Case, files map[string]string, as []*aspect.Aspect) *ilib.Result {
	defer func() {
		if p := recover(); p != nil {
			c.Violation("weaving crashes: %v", p)
		}
	}()
	return ilib.Inject(files, as, ilib.Setup{GoVersion: "go1.22", Config: map[string]string{"httpmode": "wrap"}})
}

func TestC16_Documents(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "a document, edited in up to three places, that is loaded with and without validation, and woven with if it is accepted",
		Quick: 2500,
	}, func(c *vh.Case) {
		g := &gen{t: c.T}
		g.odd = g.pct(5)
		d := g.document(2)
		var what []string
		for i := g.n(4); i > 0; i-- {
			what = append(what, g.edit(&d))
		}
		text := g.render(d)
		desc := map[string]any{"text": text, "edits": what}
		c.Desc(desc)
		files := map[string]string{"orchestrion.yml": text, "a.yml": "meta:\n  name: x\n  description: y\naspects:\n  - id: a\n    join-point: {test-main: true}\n    advice: [{add-blank-import: fmt}]\n"}
		strict, lax := load(files, true), load(files, false)
		if strict.Panic != nil || lax.Panic != nil {
			c.Violation("loading crashes: %v %v", strict.Panic, lax.Panic)
			return
		}
		valid := conforms(d)
		exts, _ := d.get("extends")
		switch ok := wellFormed(d); {
		case exts != nil && fmt.Sprint(exts) != "[./a.yml]":
			c.Class("extends")
		case valid && ok:
			c.Class("valid")
			if strict.Err != nil {
				c.Violation("a document that conforms to the schema is rejected: %v", strict.Err)
				return
			}
			if lax.Err != nil {
				c.Violation("a document that conforms to the schema is rejected without validation: %v", lax.Err)
				return
			}
			if a, b := prints(c, strict.Aspects), prints(c, lax.Aspects); a != b {
				c.Violation("the configuration is another one with validation")
			}
			l, _ := d.get("aspects")
			as, _ := l.(list)
			want := len(as)
			if exts != nil {
				want++
			}
			if len(lax.Aspects) != want {
				c.Violation("%d aspects were loaded, of %d", len(lax.Aspects), want)
			}
		case valid:
			c.Class("valid, with a malformed name or template")
		default:
			c.Class("invalid")
			if strict.Err == nil {
				c.Violation("a document that does not conform to the schema is accepted (%s): %v", strings.Join(what, "; "), schema.Validate(plain(d)))
				return
			}
		}
		c.Nontrivial(text)
		for _, l := range []loaded{strict, lax} {
			if l.Err != nil {
				if !strings.Contains(l.Err.Error(), "orchestrion.yml") {
					c.Violation("the error does not name the file: %v", l.Err)
				}
			}
		}
		if lax.Err == nil && (len(what) > 0 || g.pct(25)) {
			c.Class("woven")
			files := ilib.Generate(c.T, ilib.GenOpts{Files: 1, Funcs: 2, NoGo: true}).Files
			prints(c, lax.Aspects)
			desc["program"] = files
			if r := weave(c, files, lax.Aspects); r != nil && r.Err == nil && len(r.Files) > 0 {
				c.Class("rewritten")
			}
		}
	})
}

var tokens = []string{"null", "~", "&a", "*a", "<<: *a", "!!str ", "!!int 1", "!x ", "- ", ": ", "? ", "[", "]", "{", "}", "|", ">", "|-", "\t", "\n", "\n\n", "  ", "'", "\"", "#", "%", "@", "`", ",", "---\n", "...\n",
	"{}", "[]", "[null]", "{a: null}", "{null: a}", "1.5", "0x10", "true", ".inf", ".nan", "2001-01-01", "\\", "\x00", "\xff", "\u2028", "é", "<<", "- - a", "{{", "join-point", "advice", "aspects:", "id: "}

func TestC16_Texts(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "the text of a document with changes that ignore its structure",
		Quick: 2500,
	}, func(c *vh.Case) {
		g := &gen{t: c.T}
		text := g.render(g.document(1))
		for i := g.n(3); i >= 0; i-- {
			at := g.n(len(text) + 1)
			if g.pct(60) { // at the start of a word
				for at > 0 && at < len(text) && text[at-1] != ' ' && text[at-1] != '\n' {
					at--
				}
			}
			switch g.n(5) {
			case 0: // remove
				end := min(len(text), at+1+g.n(12))
				text = text[:at] + text[end:]
			case 1: // replace the rest of the line
				end := at
				for end < len(text) && text[end] != '\n' {
					end++
				}
				text = text[:at] + tokens[g.n(len(tokens))] + text[end:]
			case 2: // repeat a line
				lines := strings.SplitAfter(text, "\n")
				k := g.n(len(lines))
				lines[k] += lines[k]
				text = strings.Join(lines, "")
			default:
				text = text[:at] + tokens[g.n(len(tokens))] + text[at:]
			}
		}
		desc := map[string]any{"text": text}
		c.Desc(desc)
		c.Nontrivial(text)
		files := map[string]string{"orchestrion.yml": text}
		strict, lax := load(files, true), load(files, false)
		if strict.Panic != nil || lax.Panic != nil {
			c.Violation("loading crashes: %v %v", strict.Panic, lax.Panic)
			return
		}
		c.Class(fmt.Sprintf("with validation %v, without %v", strict.Err == nil, lax.Err == nil))
		if lax.Err == nil && len(lax.Aspects) > 0 {
			files := ilib.Generate(c.T, ilib.GenOpts{Files: 1, Funcs: 1, NoGo: true}).Files
			prints(c, lax.Aspects)
			desc["program"] = files
			weave(c, files, lax.Aspects)
		}
	})
}
