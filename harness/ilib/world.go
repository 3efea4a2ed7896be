// Package ilib is the shared ground of the checks on code injection: a small
// module of library and injected packages with their export data, a generator
// of user programs written against it, and helpers that run the injector.
package ilib

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"

	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// AppPath is the module the generated packages belong to.
const AppPath = "example.com/w/app"

// WorldFiles is the source of the module example.com/w.
var WorldFiles = map[string]string{
	"go.mod": "module example.com/w\n\ngo 1.24\n",
	"lib/lib.go": `// Package lib stands for any library a user program depends on.
package lib

import (
	"context"
	"fmt"

	deep "example.com/w/deep/lib"
	strange "example.com/w/odd.v2"
)

func GetDeep() *deep.Client      { return deep.New(8) }
func GetThing() *strange.Thing   { return &strange.Thing{N: 9} }

// Alias is another name of Client.
type Alias = Client

type Client struct {
	Name    string
	Hooks   []string
	Timeout int
}

type Opt func(*Client)

func New(name string, opts ...Opt) *Client {
	c := Make(name, opts...)
	return &c
}

func Make(name string, opts ...Opt) Client {
	c := Client{Name: name}
	for _, o := range opts {
		o(&c)
	}
	return c
}

func Hook(s string) Opt { return func(c *Client) { c.Hooks = append(c.Hooks, s) } }

func (c *Client) Do(n int) int   { c.Timeout++; return n + len(c.Name) + len(c.Hooks) }
func (c Client) Peek(n int) int  { return n*2 + c.Timeout }
func (c *Client) With(n int) *Client { c.Timeout += n; return c }
func (c Client) String() string  { return fmt.Sprint("client ", c.Name, c.Hooks, c.Timeout) }

type Store struct{ V int }

func (s Store) Do(n int) int { return s.V + n }
func (s *Store) Put(n int)   { s.V = n }

type Pair[K comparable, V any] struct {
	Key K
	Val V
}

func (p *Pair[K, V]) Set(k K, v V) { p.Key, p.Val = k, v }
func (p Pair[K, V]) Get() V         { return p.Val }

type Doer interface{ Do(n int) int }

type Number interface{ ~int | ~int64 }

func Sum(xs ...int) int {
	n := 0
	for _, x := range xs {
		n += x
	}
	return n
}

func Add(a, b int) int                     { return a + b }
func Apply(f func(int) int, n int) int     { return f(n) }
func Ident[T any](v T) T                   { return v }
func Map[T, U any](xs []T, f func(T) U) []U {
	out := make([]U, 0, len(xs))
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

type Err struct{ Code int }

func (e *Err) Error() string { return fmt.Sprint("err ", e.Code) }

func Fail(n int) error {
	if n%2 == 0 {
		return nil
	}
	return &Err{n}
}

func Background() context.Context { return context.Background() }

var Default = New("default")

const Limit = 3
`,
	"odd.v2/odd.go": `// Package strange does not have the name its import path suggests.
package strange

type Thing struct{ N int }

func Twice(n int) int { return n * 2 }

func (t *Thing) Do(n int) int { return t.N + n }

// Error and String do not make a Thing an error nor a fmt.Stringer.
func (t *Thing) Error() int   { return t.N }
func (t *Thing) String() int  { return t.N }
`,
	"deep/lib/lib.go": `// Package lib has the same name as another package.
package lib

type Client struct{ ID int }

func New(id int) *Client { return &Client{id} }

func (c *Client) Do(n int) int { return c.ID - n }

func Sum(xs ...int) int { return len(xs) }
`,
	"inst/inst.go": `// Package inst is what the generated aspects inject.
package inst

import "example.com/w/lib"

type State struct{ N int }

var Events []string

func Enter(id string, args ...any)      { Events = append(Events, id) }
func Leave(id string)                   { Events = append(Events, "-"+id) }
func Wrap[T any](v T, id string) T      { Events = append(Events, id); return v }
func Call[T any](f func() T, id string) T { Events = append(Events, id); return f() }
func Opt(id string) lib.Opt             { return func(c *lib.Client) { c.Hooks = append(c.Hooks, id) } }
func Num(id string, n int) int          { Events = append(Events, id); return n }
func Str(id, s string) string           { Events = append(Events, id); return s }
func Sum(xs ...int) int                 { return lib.Sum(xs...) }
func Add(a, b int) int                  { return a + b }
func New(name string, opts ...lib.Opt) *lib.Client { return lib.New(name, opts...) }
func Int(id string) int                 { return 0 }
`,
	"inst/v3/inst.go": `// Package inst is another version of the injected package.
package inst

type Extra struct{ S string }

func Enter(id string, args ...any) {}
func Mark(id string) string       { return id }
`,
	"go-hooks.v1/hooks.go": `// Package hooks has an import path that is not its name.
package hooks

type H struct{ X int }

func On(id string, args ...any) {}
`,
}

// StdPackages are the standard packages programs and templates may import.
var StdPackages = []string{"fmt", "strings", "strconv", "errors", "sort", "os", "io", "time", "context", "sync", "log", "net/http", "unsafe", "bytes", "math", "encoding/json", "reflect", "iter", "slices", "embed", "testing"}

var (
	worldOnce sync.Once
	exports   map[string]string
	WorldDir  string
)

// WriteFiles writes a tree of files.
func WriteFiles(dir string, files map[string]string) {
	for name, src := range files {
		path := filepath.Join(dir, name)
		vh.Must(os.MkdirAll(filepath.Dir(path), 0o755))
		vh.Must(os.WriteFile(path, []byte(src), 0o644))
	}
}

// World compiles the module and returns where the export data of each package is.
func World() map[string]string {
	worldOnce.Do(func() {
		dir, err := os.MkdirTemp("", "world")
		vh.Must(err)
		WorldDir = dir
		WriteFiles(dir, WorldFiles)
		args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Export,Error", "./..."}, StdPackages...)
		cmd := exec.Command("go", args...)
		cmd.Dir = dir
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		if err != nil {
			vh.Infra("go list -export in the scratch module: %v\n%s", err, stderr.String())
		}
		exports = map[string]string{}
		dec := json.NewDecoder(bytes.NewReader(out))
		for {
			var p struct {
				ImportPath, Export string
				Error              *struct{ Err string }
			}
			if err := dec.Decode(&p); err == io.EOF {
				break
			} else if err != nil {
				vh.Infra("go list output: %v", err)
			}
			if p.Error != nil {
				vh.Infra("go list: %s: %s", p.ImportPath, p.Error.Err)
			}
			if p.Export != "" {
				exports[p.ImportPath] = p.Export
			}
		}
	})
	return exports
}

// Lookup opens the export data of a package.
func Lookup(path string) (io.ReadCloser, error) {
	file, ok := World()[path]
	if !ok {
		return nil, fmt.Errorf("no export data for %q", path)
	}
	return os.Open(file)
}
