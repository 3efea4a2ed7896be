package inject_test

import (
	"os"
	"testing"

	"github.com/DataDog/orchestrion/internal/zzverif/ilib"
	"pgregory.net/rapid"
)

// TestGeneratorDev is a development aid: it makes sure that generated programs are valid.
func TestGeneratorDev(t *testing.T) {
	if os.Getenv("GENDEV") == "" {
		t.Skip()
	}
	bad, lines := 0, 0
	gen := rapid.Custom(func(rt *rapid.T) *ilib.Prog {
		return ilib.Generate(rt, ilib.GenOpts{Shadow: shadowNames, Unformatted: true, Comments: []string{"//verif:mark", "//orchestrion:ignore"}, CommentPct: 10})
	})
	for i := 0; i < 3000; i++ {
		p := gen.Example(i)
		for _, s := range p.Files {
			lines += len(s)
		}
		if _, err := ilib.Check(ilib.AppPath, p.Files); err != nil {
			bad++
			if bad < 8 {
				t.Logf("%v", err)
			}
			if bad < 5 {
				os.WriteFile("/tmp/bad"+string(rune('0'+bad)), []byte(p.Text()), 0o644)
			}
		}
	}
	t.Logf("%d bad, avg %d bytes", bad, lines/3000)
}

var shadowNames = []string{"lib", "inst", "fmt", "mylib0", "hooks", "xlib1", "strange", "errors", "x", "xs", "T1", "fn1"}
