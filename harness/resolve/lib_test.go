package resolve_test

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/DataDog/orchestrion/internal/goflags"
	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"github.com/rs/zerolog"
	"pgregory.net/rapid"
)

type gen struct{ t *rapid.T }

func (g *gen) n(k int) int {
	return int((rapid.Uint32().Draw(g.t, "n") * 2654435761 >> 8) % uint32(k))
}
func (g *gen) pct(p int) bool          { return g.n(100) < p }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }

type plan struct {
	Record string
	Real   string
	Canned map[string]string
	Fail   map[string]string
	Wait   int
}

type record struct {
	N    string
	Args [][]byte
	Env  [][]byte
	Dir  string
}

func strs(l [][]byte) (r []string) {
	for _, b := range l {
		r = append(r, string(b))
	}
	return r
}

func envMap(l []string) map[string]string {
	m := map[string]string{}
	for _, e := range l {
		k, v, _ := strings.Cut(e, "=")
		m[k] = v
	}
	return m
}

// world is a stand-in of go in the search path of this process.
type world struct {
	bin  string
	real string
	base []string // environment

	goroot string
}

func newWorld(root string) *world {
	w := &world{bin: filepath.Join(root, "bin")}
	real, err := exec.LookPath("go")
	vh.Must(err)
	w.real = real
	out, err := exec.Command(real, "env", "GOROOT").Output()
	vh.Must(err)
	w.goroot = strings.TrimSpace(string(out))
	vh.Must(os.MkdirAll(w.bin, 0o755))
	vh.Must(os.Symlink(os.Getenv("VERIF_HELPER"), filepath.Join(w.bin, "go")))
	w.set(plan{})
	vh.Must(os.Setenv("PATH", w.bin+":"+os.Getenv("PATH")))
	for _, e := range os.Environ() {
		switch k, _, _ := strings.Cut(e, "="); {
		case strings.HasPrefix(k, "VERIF_"), strings.HasPrefix(k, "ORCHESTRION"), strings.Contains(k, "DD_"), k == "PWD", k == "OLDPWD", k == "GOTMPDIR":
		default:
			w.base = append(w.base, e)
		}
	}
	zerolog.SetGlobalLevel(zerolog.Disabled)
	// The overlay is that of the directory where go is run.
	goflags.SetFlags(context.Background(), "", []string{"build", "-a", "-toolexec=/some/tool toolexec", "-overlay=conf/overlay.json", "-tags=verifx"})
	return w
}

func (w *world) set(p plan) {
	p.Real = w.real
	if p.Record == "" {
		p.Record = filepath.Join(w.bin, "record")
	}
	text, err := json.Marshal(p)
	vh.Must(err)
	vh.Must(os.WriteFile(filepath.Join(w.bin, "go.plan"), text, 0o644))
}

func records(file string) (rs []record) {
	text, err := os.ReadFile(file)
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	vh.Must(err)
	dec := json.NewDecoder(bytes.NewReader(text))
	for dec.More() {
		var r record
		vh.Must(dec.Decode(&r))
		rs = append(rs, r)
	}
	return rs
}

func server() (*jobserver.Server, *client.Client) {
	srv, err := jobserver.New(context.Background(), &jobserver.Options{NoListener: true})
	vh.Must(err)
	cl, err := srv.Connect()
	vh.Must(err)
	return srv, cl
}
