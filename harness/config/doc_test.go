// Package config_test checks how configuration documents are loaded, validated,
// and told apart.
package config_test

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"

	"github.com/santhosh-tekuri/jsonschema/v6"
	"pgregory.net/rapid"
)

// Documents are trees of obj, list, string, int, bool and nil.
type (
	kv struct {
		K string
		V any
	}
	obj  []kv
	list []any
)

func (o obj) get(k string) (any, bool) {
	for _, e := range o {
		if e.K == k {
			return e.V, true
		}
	}
	return nil, false
}

func (o obj) str(k string) string { v, _ := o.get(k); s, _ := v.(string); return s }

func clone(v any) any {
	switch v := v.(type) {
	case obj:
		out := make(obj, len(v))
		for i, e := range v {
			out[i] = kv{e.K, clone(e.V)}
		}
		return out
	case list:
		out := make(list, len(v))
		for i, e := range v {
			out[i] = clone(e)
		}
		return out
	}
	return v
}

// plain converts to what encoding/json produces.
func plain(v any) any {
	switch v := v.(type) {
	case obj:
		out := map[string]any{}
		for _, e := range v {
			out[e.K] = plain(e.V)
		}
		return out
	case list:
		out := make([]any, len(v))
		for i, e := range v {
			out[i] = plain(e)
		}
		return out
	case int:
		return float64(v)
	}
	return v
}

func canon(v any) string { b, _ := json.Marshal(plain(v)); return string(b) }

// gen draws documents.
type gen struct {
	t    *rapid.T
	id   int
	odd  bool // strings that have control characters
	wide bool // more names
}

func (g *gen) n(k int) int             { return int((rapid.Uint32().Draw(g.t, "n") * 2654435761 >> 8) % uint32(k)) }
func (g *gen) pct(p int) bool          { return g.n(100) < p }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }

const (
	pLib  = "example.com/w/lib"
	pInst = "example.com/w/inst"
)

var paths = []string{pLib, pInst, "net/http", "fmt", "context", "example.com/w/go-hooks.v1", "strings", "gopkg.in/yaml.v2", "git.sr.ht/~user/pkg", "example.com/a+b", "main"}
var idents = []string{"Client", "Get", "Store", "New", "Do", "F", "x", "_y", "Größe", "T1", "any", "error", "int"}

func (g *gen) path() string  { return paths[g.n(len(paths))] }
func (g *gen) ident() string { return idents[g.n(len(idents))] }

// typeName is the name of a type that need not exist, as documented.
func (g *gen) typeName(ptr bool) string {
	s := ""
	if ptr && g.pct(40) {
		s = "*"
	}
	switch {
	case g.pct(30):
		if ptr && s != "" { // the schema has no pointers to plain names in signatures
			return s + pLib + ".Client"
		}
		return s + g.pick("string", "int", "error", "any", "bool", "Local")
	case g.pct(50):
		return s + pLib + "." + g.pick("Client", "Store", "Opt")
	}
	return s + g.path() + "." + g.ident()
}

func (g *gen) ctl(s string) string {
	if !g.odd || !g.pct(60) {
		return s
	}
	return g.pick(s+"\x03\x03", "\x01"+s, s+"\x02", "p\x031\x02q", s+"\x01"+s, s+"\x03")
}

func (g *gen) lang() string { return g.pick("go1.18", "go1.20", "go1.21", "go1.9", "go1.10") }

func (g *gen) template(kind string) obj {
	var text string
	var names []string
	switch kind {
	case "expr":
		text = g.pick("{{ . }}", "inst.Wrap({{ . }}, \"a\")", "func() any { return {{ . }} }()", "({{ . }})", "lib.Make(\"x\")", "1", "\"text\"")
	case "stmts":
		text = g.pick("println(\"a\")", "inst.Enter(\"a\")", "_ = 1\n_ = 2", "defer inst.Leave(\"b\")", "{{ $a := .Function.Argument 0 }}println({{ $a }})", "if true {\n\tprintln(1)\n}", "println({{ .Function.Name | printf \"%q\" }})")
	case "decls":
		text = g.pick("func extra() {}", "var v = inst.Int(\"v\")", "//go:linkname f example.com/w/inst.F\nfunc f()", "type t struct{ lib.Client }", "func a() {}\n\nfunc b() {}")
	case "arg":
		text = g.pick("inst.Opt(\"a\")", "1", "\"x\"", "nil", "lib.Hook(\"q\")", "{{ Version | printf \"%q\" }}")
	}
	if g.odd && g.pct(50) {
		text += " // " + g.ctl("c")
	}
	for _, n := range []string{"inst", "lib"} {
		if strings.Contains(text, n+".") {
			names = append(names, n)
		}
	}
	out := obj{{"template", text}}
	if len(names) > 0 || g.pct(15) {
		var im obj
		for _, n := range names {
			p := pInst
			if n == "lib" {
				p = pLib
			}
			if g.pct(10) {
				p = g.path()
			}
			im = append(im, kv{n, g.ctl(p)})
		}
		if im == nil {
			im = obj{}
		}
		out = append(out, kv{"imports", im})
	}
	if g.pct(20) {
		out = append(out, kv{"lang", g.lang()})
	}
	return out
}

func (g *gen) advice() obj {
	switch g.n(8) {
	case 0:
		return obj{{"assign-value", g.template("expr")}}
	case 1, 2:
		t := g.template("stmts")
		if g.pct(50) {
			t = append(t, kv{"order", g.n(7) - 3})
		}
		if g.pct(50) {
			t = append(t, kv{"namespace", g.ctl(g.pick("a", "b", "ns", "", "z"))})
		}
		return obj{{"prepend-statements", t}}
	case 3:
		vs := list{}
		for i := 0; i <= g.n(3); i++ {
			vs = append(vs, g.template("arg"))
		}
		return obj{{"append-args", obj{{"type", g.typeRef()}, {"values", vs}}}}
	case 4:
		return obj{{"replace-function", g.qualified()}}
	case 5:
		if g.pct(50) {
			return obj{{"add-blank-import", g.ctl(g.path())}}
		}
		return obj{{"add-struct-field", obj{{"name", g.pick("dd", "extra", "_f", "Größe")}, {"type", g.typeRef()}}}}
	case 6:
		t := g.template("decls")
		if g.pct(50) {
			links := list{}
			for i, k := g.n(len(paths)), g.n(3); k >= 0 && i < len(paths); i, k = i+1, k-1 {
				links = append(links, g.ctl(paths[i]))
			}
			if len(uniq(links)) != len(links) {
				links = links[:1]
			}
			t = append(t, kv{"links", links})
		}
		return obj{{"inject-declarations", t}}
	}
	return obj{{"wrap-expression", g.template("expr")}}
}

func uniq(l list) map[string]bool {
	m := map[string]bool{}
	for _, v := range l {
		m[canon(v)] = true
	}
	return m
}

func (g *gen) typeRef() string {
	if g.pct(8) {
		return "interface{}"
	}
	if g.pct(10) {
		return "*" + g.pick("int", "Local", "Größe")
	}
	return g.typeName(true)
}

func (g *gen) qualified() string {
	if g.pct(20) {
		return g.pick("len", "panic", "Helper", "F", "Größe")
	}
	return g.path() + "." + g.pick("New", "Make", "Sum", "Println", "F")
}

func (g *gen) types() list {
	out := list{}
	for i := g.n(3); i > 0; i-- {
		out = append(out, g.typeName(true))
	}
	return out
}

func (g *gen) option() obj {
	switch g.n(9) {
	case 0, 1:
		return obj{{"name", g.pick("F", "New", "Do", "main", "", "Größe")}}
	case 2:
		return obj{{"receiver", g.typeName(true)}}
	case 3:
		return obj{{"receiver", g.pct(50)}}
	case 4, 5:
		var sig obj
		if g.pct(70) {
			sig = append(sig, kv{"args", g.types()})
		}
		if g.pct(70) {
			sig = append(sig, kv{"returns", g.types()})
		}
		if sig == nil {
			sig = obj{}
		}
		return obj{{g.pick("signature", "signature-contains"), sig}}
	}
	return obj{{g.pick("result-implements", "final-result-implements", "argument-implements"), g.pick("error", "context.Context", "net/http.Handler", "io.Reader", "any")}}
}

func (g *gen) joinPoint(depth int) obj {
	k := g.n(22)
	if depth <= 0 && k < 6 {
		k += 6
	}
	switch k {
	case 0, 1:
		return obj{{"all-of", g.joinPoints(depth - 1)}}
	case 2:
		return obj{{"one-of", g.joinPoints(depth - 1)}}
	case 3:
		return obj{{"not", g.joinPoint(depth - 1)}}
	case 4, 5:
		return obj{{"function-body", g.joinPoint(depth - 1)}}
	case 6, 7, 8:
		opts := list{}
		for i := g.n(3); i >= 0; i-- {
			opts = append(opts, g.option())
		}
		return obj{{"function", opts}}
	case 9:
		return obj{{"import-path", g.path()}}
	case 10:
		return obj{{"package-name", g.pick("app", "main", "lib", "fmt")}}
	case 11:
		if g.pct(40) {
			return obj{{"package-filter", g.pick("**", "example.com/**", "main", "*")}}
		}
		var f obj
		if g.pct(60) {
			f = append(f, kv{"root", g.pct(50)})
		}
		if r, _ := f.get("root"); r != true || g.pct(50) {
			f = append(f, kv{"pattern", g.pick("**", "internal/**", "example.com/w/*", "app")})
		}
		return obj{{"package-filter", f}}
	case 12:
		cfg := obj{}
		for i, key := range []string{"httpmode", "a", "b"} {
			if g.pct(40) || i == 2 && len(cfg) == 0 {
				cfg = append(cfg, kv{g.ctl(key), g.ctl(g.pick("wrap", "report", "", "x"))})
			}
		}
		return obj{{"configuration", cfg}}
	case 13:
		return obj{{"declaration-of", g.path() + "." + g.ident()}}
	case 14:
		return obj{{"directive", g.pick("dd:span", "go:embed", "x:y", "dd")}}
	case 15, 16:
		return obj{{"function-call", g.qualified()}}
	case 17:
		o := obj{{"receiver", g.path() + "." + g.pick("Client", "Store")}, {"name", g.pick("Do", "Get", "Größe")}}
		if g.pct(50) {
			o = append(o, kv{"match", g.pick("any", "pointer-only", "value-only")})
		}
		return obj{{"method-call", o}}
	case 18:
		return obj{{"struct-definition", g.typeName(false)}}
	case 19:
		o := obj{{"type", g.typeName(false)}}
		if g.pct(40) {
			o = append(o, kv{"field", g.pick("Name", "V", "Größe")})
		} else if g.pct(60) {
			o = append(o, kv{"match", g.pick("any", "pointer-only", "value-only")})
		}
		return obj{{"struct-literal", o}}
	case 20:
		return obj{{"test-main", g.pct(50)}}
	}
	return obj{{"value-declaration", g.typeRef()}}
}

func (g *gen) joinPoints(depth int) list {
	out := list{}
	for i := 1 + g.n(2); i >= 0; i-- {
		out = append(out, g.joinPoint(depth))
	}
	return out
}

func (g *gen) aspect() obj {
	g.id++
	jp := g.joinPoint(2)
	if g.pct(15) { // matches a lot
		jp = []obj{{{"package-name", "app"}}, {{"package-filter", "**"}}, {{"not", obj{{"test-main", true}}}}, {{"function", list{obj{{"receiver", false}}}}}, {{"function-body", obj{{"package-name", "app"}}}}}[g.n(5)]
	}
	a := obj{{"id", fmt.Sprintf("aspect %d", g.id)}, {"join-point", jp}}
	if g.pct(20) {
		a = append(a, kv{"tracer-internal", g.pct(70)})
	}
	adv := list{}
	for i := g.n(3); i >= 0; i-- {
		adv = append(adv, g.advice())
	}
	return append(a, kv{"advice", adv})
}

func (g *gen) document(max int) obj {
	meta := obj{{"name", "a name"}, {"description", "a description"}}
	if g.pct(20) {
		meta = append(meta, kv{"icon", "github"})
	}
	if g.pct(20) {
		meta = append(meta, kv{"caveats", "none"})
	}
	as := list{}
	for i := g.n(max); i >= 0; i-- {
		as = append(as, g.aspect())
	}
	return obj{{"meta", meta}, {"aspects", as}}
}

// Rendering.

var plainRe = regexp.MustCompile(`\A[A-Za-z_*][A-Za-z0-9_./*]*\z`)
var notPlain = regexp.MustCompile(`(?i)\A(\*.*|true|false|null|yes|no|on|off|y|n|~|\.?nan|\.?inf)\z`)

func (g *gen) scalar(v any, flow bool) string {
	switch v := v.(type) {
	case nil:
		return g.pick("null", "~")
	case string:
		simple := !strings.ContainsFunc(v, func(r rune) bool { return r < ' ' || r > '~' && r < 0xa0 })
		switch {
		case plainRe.MatchString(v) && !notPlain.MatchString(v) && g.pct(60):
			return v
		case simple && g.pct(40):
			return "'" + strings.ReplaceAll(v, "'", "''") + "'"
		}
		return yamlQuote(v)
	}
	return fmt.Sprint(v)
}

func yamlQuote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < ' ':
			fmt.Fprintf(&b, `\x%02x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (g *gen) flow(v any) string {
	switch v := v.(type) {
	case obj:
		var parts []string
		for _, e := range v {
			parts = append(parts, g.scalar(e.K, true)+": "+g.flow(e.V))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case list:
		var parts []string
		for _, e := range v {
			parts = append(parts, g.flow(e))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	}
	return g.scalar(v, true)
}

func blockText(s string) bool {
	return strings.Contains(s, "\n") && !strings.ContainsAny(s, "\t\r\x01\x02\x03") && !strings.HasPrefix(s, " ") && !strings.HasSuffix(s, "\n") && !strings.HasPrefix(s, "\n")
}

// block renders a value that follows a key or a dash.
func (g *gen) block(v any, ind string) string {
	switch v := v.(type) {
	case obj:
		if len(v) == 0 || g.pct(15) {
			return " " + g.flow(v)
		}
		out := ""
		for _, e := range v {
			if g.pct(4) {
				out += "\n" + ind + "# a comment"
			}
			out += "\n" + ind + g.scalar(e.K, false) + ":" + g.block(e.V, ind+"  ")
		}
		return out
	case list:
		if len(v) == 0 || g.pct(15) {
			return " " + g.flow(v)
		}
		out := ""
		for _, e := range v {
			item := g.block(e, ind+"  ")
			if strings.HasPrefix(item, "\n"+ind+"  ") && !strings.HasPrefix(item, "\n"+ind+"  #") {
				item = " " + strings.TrimPrefix(item, "\n"+ind+"  ")
			}
			out += "\n" + ind + "-" + item
		}
		return out
	case string:
		if blockText(v) && g.pct(50) {
			return " |-\n" + ind + strings.ReplaceAll(v, "\n", "\n"+ind)
		}
	}
	return " " + g.scalar(v, false)
}

// render draws a textual form of the document.
func (g *gen) render(d obj) string {
	if g.pct(10) {
		b, _ := json.Marshal(plain(d))
		if !strings.Contains(string(b), `\u`) { // the parser does not know all of JSON's escapes
			return string(b)
		}
	}
	return strings.TrimPrefix(g.block(d, ""), "\n") + "\n"
}

// shuffleKeys draws another order of the keys of all mappings.
func (g *gen) shuffleKeys(v any) any {
	switch v := v.(type) {
	case obj:
		out := obj{}
		for _, e := range v {
			out = append(out, kv{e.K, g.shuffleKeys(e.V)})
		}
		for i := len(out) - 1; i > 0; i-- {
			j := g.n(i + 1)
			out[i], out[j] = out[j], out[i]
		}
		return out
	case list:
		out := make(list, len(v))
		for i, e := range v {
			out[i] = g.shuffleKeys(e)
		}
		return out
	}
	return v
}

// Edits.

var siblings = [][]string{
	{"all-of", "one-of"}, {"package-name", "import-path", "directive", "function-call", "declaration-of", "struct-definition", "value-declaration", "package-filter"},
	{"signature", "signature-contains"}, {"result-implements", "final-result-implements", "argument-implements", "name", "receiver"}, {"args", "returns"},
	{"wrap-expression", "assign-value", "prepend-statements", "inject-declarations"}, {"replace-function", "add-blank-import"}, {"not", "function-body"},
	{"field", "match"}, {"root", "pattern"}, {"order", "namespace", "lang", "links"}, {"lib", "inst"},
}

var extras = []kv{{"order", 1}, {"namespace", "a"}, {"lang", "go1.21"}, {"links", list{"fmt"}}, {"match", "value-only"}, {"match", "any"}, {"field", "Name"}, {"root", true}, {"root", false}, {"pattern", "**"},
	{"imports", obj{}}, {"tracer-internal", true}, {"tracer-internal", false}, {"args", list{"int"}}, {"returns", list{"error"}}, {"junk", "x"}, {"id", "x"}, {"import", obj{{"fmt", "fmt"}}},
	{"template", "x"}, {"extend", list{"./a.yml"}}, {"Order", 2}, {"not", obj{{"test-main", true}}}, {"name", "x"}, {"_", nil}, {"Lang", "go1.22"}, {"test-main", true}}

type slot struct {
	get func() any
	set func(any)
	key string
	obj *obj
	idx int
}

func slots(v any, set func(any), key string, out *[]slot) {
	*out = append(*out, slot{get: func() any { return v }, set: set, key: key})
	switch v := v.(type) {
	case obj:
		for i := range v {
			slots(v[i].V, func(n any) { v[i].V = n }, v[i].K, out)
		}
	case list:
		for i := range v {
			slots(v[i], func(n any) { v[i] = n }, key, out)
		}
	}
}

// edit changes the document at one place. It says what it did.
func (g *gen) edit(d *obj) string {
	var all []slot
	root := any(*d)
	slots(root, func(n any) { root = n }, "", &all)
	defer func() {
		if o, ok := root.(obj); ok {
			*d = o
		}
	}()
	for range 20 {
		s := all[g.n(len(all))]
		v := s.get()
		if s.key == "name" && g.pct(50) || s.key == "description" || s.key == "id" && g.pct(80) || s.key == "icon" {
			continue
		}
		if g.pct(6) { // another kind of value
			n := []any{nil, true, 1, "text", list{}, obj{}, list{nil}, obj{{"a", "b"}}, "", list{"int"}}[g.n(10)]
			s.set(n)
			return fmt.Sprintf("%s: %s becomes %s", s.key, canon(v), canon(n))
		}
		switch v := v.(type) {
		case obj:
			switch g.n(5) {
			case 0:
				if len(v) > 0 {
					i := g.n(len(v))
					n := append(append(obj{}, v[:i]...), v[i+1:]...)
					s.set(n)
					return fmt.Sprintf("%s: removed %s", s.key, v[i].K)
				}
			case 1:
				e := extras[g.n(len(extras))]
				if _, dup := v.get(e.K); !dup {
					s.set(append(append(obj{}, v...), kv{e.K, clone(e.V)}))
					return fmt.Sprintf("%s: added %s", s.key, e.K)
				}
			default:
				if len(v) > 0 {
					i := g.n(len(v))
					for _, group := range siblings {
						for _, k := range group {
							if k != v[i].K {
								continue
							}
							n := group[g.n(len(group))]
							if _, dup := v.get(n); !dup {
								was := v[i].K
								v[i].K = n
								return fmt.Sprintf("%s: key %s becomes %s", s.key, was, n)
							}
						}
					}
				}
			}
		case list:
			switch g.n(4) {
			case 0:
				if len(v) > 0 {
					i := g.n(len(v))
					s.set(append(append(list{}, v[:i]...), v[i+1:]...))
					return fmt.Sprintf("%s: removed item %d", s.key, i)
				}
			case 1:
				if len(v) > 0 {
					i := g.n(len(v))
					s.set(append(append(list{}, v...), clone(v[i])))
					return fmt.Sprintf("%s: repeated item %d", s.key, i)
				}
			case 2:
				if len(v) > 1 {
					i := g.n(len(v) - 1)
					v[i], v[i+1] = v[i+1], v[i]
					return fmt.Sprintf("%s: swapped items %d and %d", s.key, i, i+1)
				}
			case 3: // move an item to another list
				o := all[g.n(len(all))]
				if w, ok := o.get().(list); ok && len(v) > 0 && o.key == s.key {
					i := g.n(len(v))
					x := v[i]
					s.set(append(append(list{}, v[:i]...), v[i+1:]...))
					o.set(append(append(list{}, w...), x))
					return fmt.Sprintf("%s: moved item %d to another list", s.key, i)
				}
			}
		case bool:
			s.set(!v)
			return s.key + ": flipped"
		case int:
			s.set(v + []int{1, -1, 10}[g.n(3)])
			return s.key + ": another number"
		case string:
			n := v
			switch g.n(9) {
			case 0:
				n = v + g.pick("x", "1", "_", ".", "/y")
			case 1:
				if len(v) > 0 && v[len(v)-1] < 0x80 {
					n = v[:len(v)-1]
				}
			case 2:
				n = g.pick("", "x", "any", "int", "interface{}", "value-only", "go1.2", "go2", "a b.C", "1x", "*x.Y", "{{", "{{ . }}", "../x", "**", "[")
			case 3:
				n = g.typeName(true)
			case 4:
				if strings.HasPrefix(v, "*") {
					n = v[1:]
				} else {
					n = "*" + v
				}
			case 5: // exchange with another string under the same key
				o := all[g.n(len(all))]
				if w, ok := o.get().(string); ok && w != v {
					o.set(v)
					s.set(w)
					return fmt.Sprintf("%s: exchanged %q and %q", s.key, v, w)
				}
			case 6: // move a part to another string
				o := all[g.n(len(all))]
				if w, ok := o.get().(string); ok && len(v) > 1 && o.key == s.key {
					o.set(w + v[len(v)/2:])
					s.set(v[:len(v)/2])
					return fmt.Sprintf("%s: moved a part of %q", s.key, v)
				}
			case 7:
				n = strings.ToUpper(v)
			case 8:
				n = strings.Replace(v, pLib, pInst, 1)
			}
			if n != v {
				s.set(n)
				return fmt.Sprintf("%s: %q becomes %q", s.key, v, n)
			}
		}
	}
	return "nothing"
}

// The reference.

var schema = func() *jsonschema.Schema {
	doc, err := jsonschema.UnmarshalJSON(strings.NewReader(published))
	if err != nil {
		panic(err)
	}
	c := jsonschema.NewCompiler()
	if err := c.AddResource("schema.json", doc); err != nil {
		panic(err)
	}
	return c.MustCompile("schema.json")
}()

// conforms tells whether the document conforms to the published schema.
func conforms(d any) bool { return schema.Validate(plain(d)) == nil }

var (
	typeRe = regexp.MustCompile(`\A(?:\*?(?:[A-Za-z0-9_.~+-]+(?:/[A-Za-z0-9_.~+-]+)*\.)?[\p{L}_][\p{L}_\p{Nd}]*|interface\{\})\z`)
	plnRe  = regexp.MustCompile(`\A(?:[A-Za-z0-9_.~+-]+(?:/[A-Za-z0-9_.~+-]+)*\.)?[\p{L}_][\p{L}_\p{Nd}]*\z`)
	langRe = regexp.MustCompile(`\Ago1\.(0|[1-9]\d{0,2})\z`)
)

// wellFormed tells whether, in a document that conforms to the schema, names are
// those of types and functions and templates are templates: the schema only
// describes these in part.
func wellFormed(v any) bool {
	switch v := v.(type) {
	case list:
		for _, e := range v {
			if !wellFormed(e) {
				return false
			}
		}
	case obj:
		for _, e := range v {
			s, isStr := e.V.(string)
			ok := true
			switch {
			case e.K == "template" && isStr:
				_, err := template.New("x").Funcs(template.FuncMap{"Version": func() string { return "" }}).Parse(s)
				ok = err == nil
			case e.K == "lang" && isStr:
				ok = langRe.MatchString(s)
			case (e.K == "type" || e.K == "value-declaration") && isStr:
				ok = typeRe.MatchString(s)
			case e.K == "receiver" && isStr:
				ok = typeRe.MatchString(s)
			case e.K == "struct-definition" || e.K == "function-call" || e.K == "replace-function" || e.K == "declaration-of":
				ok = plnRe.MatchString(s)
			case e.K == "struct-literal":
				o, _ := e.V.(obj)
				ok = plnRe.MatchString(o.str("type"))
			case e.K == "method-call":
				o, _ := e.V.(obj)
				ok = plnRe.MatchString(o.str("receiver"))
			case e.K == "args" || e.K == "returns":
				l, _ := e.V.(list)
				for _, x := range l {
					s, _ := x.(string)
					ok = ok && typeRe.MatchString(s)
				}
			case strings.HasSuffix(e.K, "-implements"):
				ok = plnRe.MatchString(s)
			case e.K == "imports":
				continue // names
			case e.K == "configuration":
				continue
			}
			if !ok || !wellFormed(e.V) {
				return false
			}
		}
	}
	return true
}

func normType(s string) string {
	if s == "interface{}" {
		return "any"
	}
	return s
}

func normTypes(v any) list {
	out := list{}
	l, _ := v.(list)
	for _, x := range l {
		s, _ := x.(string)
		out = append(out, normType(s))
	}
	return out
}

func sorted(l list) list {
	m := uniq(l)
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := list{}
	for _, k := range keys {
		out = append(out, k)
	}
	return out
}

// normTemplate is what a template means; coarsely, leaving out what does not matter to its result.
func normTemplate(o obj, coarse bool) obj {
	text := o.str("template")
	imports := obj{}
	if m, _ := o.get("imports"); m != nil {
		for _, e := range m.(obj) {
			if !coarse || strings.Contains(text, e.K+".") {
				imports = append(imports, e)
			}
		}
	}
	if coarse {
		text = strings.Join(strings.Fields(text), " ")
	}
	return obj{{"text", text}, {"imports", imports}, {"lang", o.str("lang")}}
}

// normJoin is what a join point means.
func normJoin(o obj, coarse bool) any {
	k, v := o[0].K, o[0].V
	switch k {
	case "all-of", "one-of":
		out := list{}
		for _, x := range v.(list) {
			out = append(out, normJoin(x.(obj), coarse))
		}
		if coarse {
			out = sorted(out)
		}
		return obj{{k, out}}
	case "not", "function-body":
		return obj{{k, normJoin(v.(obj), coarse)}}
	case "function":
		out := list{}
		for _, x := range v.(list) {
			e := x.(obj)[0]
			switch {
			case strings.HasPrefix(e.K, "signature"):
				sig := e.V.(obj)
				a, _ := sig.get("args")
				r, _ := sig.get("returns")
				la, lr := normTypes(a), normTypes(r)
				if e.K == "signature-contains" && coarse {
					la, lr = sorted(la), sorted(lr)
				}
				out = append(out, obj{{e.K, list{la, lr}}})
			case e.K == "receiver":
				if s, ok := e.V.(string); ok {
					out = append(out, obj{{"receiver type", normType(s)}})
				} else {
					out = append(out, obj{{"receiver", e.V}})
				}
			default:
				out = append(out, obj{e})
			}
		}
		if coarse {
			out = sorted(out)
		}
		return obj{{k, out}}
	case "package-filter":
		f, ok := v.(obj)
		if !ok {
			f = obj{{"pattern", v}}
		}
		root, _ := f.get("root")
		return obj{{k, list{root == true, f.str("pattern")}}}
	case "method-call", "struct-literal":
		f := v.(obj)
		match := f.str("match")
		if match == "" {
			match = "any"
		}
		return obj{{k, list{f.str("receiver"), f.str("name"), normType(f.str("type")), f.str("field"), match}}}
	case "value-declaration", "struct-definition":
		return obj{{k, normType(v.(string))}}
	}
	return obj{{k, v}}
}

func normAdvice(o obj, coarse bool) any {
	k, v := o[0].K, o[0].V
	switch k {
	case "assign-value", "wrap-expression":
		return obj{{k, normTemplate(v.(obj), coarse)}}
	case "prepend-statements":
		f := v.(obj)
		order, _ := f.get("order")
		if order == nil {
			order = 0
		}
		return obj{{k, normTemplate(f, coarse)}, {"order", order}, {"namespace", f.str("namespace")}}
	case "inject-declarations":
		f := v.(obj)
		l, _ := f.get("links")
		links, _ := l.(list)
		if coarse {
			links = sorted(links)
		}
		return obj{{k, normTemplate(f, coarse)}, {"links", append(list{}, links...)}}
	case "append-args":
		f := v.(obj)
		vals := list{}
		l, _ := f.get("values")
		for _, x := range l.(list) {
			vals = append(vals, normTemplate(x.(obj), coarse))
		}
		return obj{{k, list{normType(f.str("type")), vals}}}
	case "add-struct-field":
		f := v.(obj)
		return obj{{k, list{f.str("name"), normType(f.str("type"))}}}
	}
	return obj{{k, v}}
}

// meaning is what a conforming document means: equal texts mean the same. In
// the coarse form, different texts mean something different.
func meaning(d obj, coarse bool) string {
	out := list{}
	as, _ := d.get("aspects")
	l, _ := as.(list)
	for _, x := range l {
		a := x.(obj)
		jp, _ := a.get("join-point")
		ti, _ := a.get("tracer-internal")
		adv := list{}
		av, _ := a.get("advice")
		for _, y := range av.(list) {
			adv = append(adv, normAdvice(y.(obj), coarse))
		}
		n := list{normJoin(jp.(obj), coarse), ti == true, adv}
		if !coarse {
			n = append(n, a.str("id"))
		}
		out = append(out, n)
	}
	return canon(out)
}

var _ = strconv.Itoa
