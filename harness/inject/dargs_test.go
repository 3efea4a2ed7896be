package inject_test

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

type darg struct{ Key, Value string }

// drawArgs draws the arguments of a directive and how they are written.
func drawArgs(t *rapid.T) (args []darg, text string) {
	key := rapid.StringMatching(`[a-zA-Z0-9_.\-/é=]{1,6}`)
	plain := rapid.StringMatching(`[a-zA-Z0-9_.\-/é=:#@{}$%]{0,6}`)
	inDouble := rapid.StringMatching(`[a-z 	:'/é]{0,8}`)
	inSingle := rapid.StringMatching(`[a-z 	:"/é]{0,8}`)
	space := rapid.SampledFrom([]string{" ", " ", " ", "  ", "\t", " \t "})
	var b strings.Builder
	for k := rapid.IntRange(0, 5).Draw(t, "args"); k > 0; k-- {
		b.WriteString(space.Draw(t, "space"))
		a := darg{Key: key.Draw(t, "key")}
		b.WriteString(a.Key)
		switch rapid.IntRange(0, 4).Draw(t, "style") {
		case 0:
		case 1:
			a.Value = inDouble.Draw(t, "value")
			b.WriteString(`:"` + a.Value + `"`)
		case 2:
			a.Value = inSingle.Draw(t, "value")
			b.WriteString(`:'` + a.Value + `'`)
		default:
			a.Value = plain.Draw(t, "value")
			b.WriteString(":" + a.Value)
		}
		args = append(args, a)
	}
	if rapid.IntRange(0, 3).Draw(t, "end") == 0 {
		b.WriteString(space.Draw(t, "space"))
	}
	return args, b.String()
}

func TestC10_DirectiveArguments(t *testing.T) {
	inWorld()
	vh.Run(t, vh.Opts{
		Rule:  "functions, methods, literals, variables and calls annotated with directives whose random arguments are flags, plain and quoted values separated by random white space, among look-alike comments, and with malformed text; the pairs a template gets are those that were written, in order; malformed text does not crash; non-trivial: two or more arguments, or malformed text with quotes or colons",
		Quick: 6000, Thorough: 24000,
	}, func(c *vh.Case) {
		want, text := drawArgs(c.T)
		malformed := rapid.IntRange(0, 4).Draw(c.T, "malformed") == 0
		if malformed {
			text = rapid.StringMatching(`( |	)[ 	:"'a]{0,10}`).Draw(c.T, "text")
		}
		line := "//verif:x" + text
		var before, after []string
		noise := rapid.SampledFrom([]string{"// verif:x no:no", "//verif:xx no:no", "//verif:x2", "//verif:y z:1", "/*verif:x no:no*/", "// text"})
		before = rapid.SliceOfN(noise, 0, 2).Draw(c.T, "before")
		after = rapid.SliceOfN(noise, 0, 2).Draw(c.T, "after")
		put := func(ind string) string {
			lines := append(append(append([]string{}, before...), line), after...)
			return ind + strings.Join(lines, "\n"+ind) + "\n"
		}
		src := "package app\n\n"
		switch rapid.IntRange(0, 6).Draw(c.T, "place") {
		case 0:
			src += put("") + "func F(a int) int {\n\treturn a\n}\n"
		case 1:
			src += "type T struct{}\n\n" + put("") + "func (*T) F(a int) int {\n\treturn a\n}\n"
		case 2:
			src += put("") + "var F = func(a int) int {\n\treturn a\n}\n"
		case 3:
			src += "func init() {\n" + put("\t") + "\tf := func(a int) int {\n\t\treturn a\n\t}\n\t_ = f\n}\n"
		case 4:
			src += "func init() {\n" + put("\t") + "\tfunc(a int) int {\n\t\treturn a\n\t}(1)\n}\n"
		case 5: // the nearest one counts
			src += "//verif:x no:no\nfunc G() func(int) int {\n" + put("\t") + "\tf := func(a int) int {\n\t\treturn a\n\t}\n\treturn f\n}\n"
		case 6:
			src += "func init() {\n" + put("\t") + "\tgo func(a int) int {\n\t\treturn a\n\t}(1)\n}\n"
		}
		c.Desc(map[string]any{"source": src, "want": want})

		as, err := ilib.ParseAspects("aspects:\n  - id: A\n    join-point: {function-body: {function: [{signature: {args: [int], returns: [int]}}]}}\n    advice:\n      - prepend-statements: {template: '{{range .DirectiveArgs \"verif:x\"}}inst.Enter(\"@1\", {{printf `%q` .Key}}, {{printf `%q` .Value}})\n\n{{end}}', imports: {inst: " + wInst + "}}\n")
		vh.Must(err)
		res := ilib.Inject(map[string]string{"f.go": src}, as, ilib.Setup{})
		if res.Err != nil {
			c.Violation("weaving fails: %v\n%s", res.Err, src)
		}
		out := res.Files["f.go"]
		f, err := parser.ParseFile(token.NewFileSet(), "f.go", out, 0)
		if err != nil {
			c.Violation("the result is not valid: %v\n%s", err, out)
		}
		if malformed {
			if strings.ContainsAny(text, `:"'`) {
				c.Class("malformed")
				c.Nontrivial(text)
			}
			return
		}
		var got []darg
		ast.Inspect(f, func(n ast.Node) bool {
			if call, ok := n.(*ast.CallExpr); ok && len(call.Args) == 3 {
				k, _ := strconv.Unquote(call.Args[1].(*ast.BasicLit).Value)
				v, _ := strconv.Unquote(call.Args[2].(*ast.BasicLit).Value)
				got = append(got, darg{k, v})
			}
			return true
		})
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Violation("the arguments of %q are read as %q\n%s", line, got, src)
		}
		if len(want) >= 2 {
			c.Nontrivial(line)
		}
	})
}
