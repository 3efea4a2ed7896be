package ilib

import (
	"context"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	"github.com/DataDog/orchestrion/internal/injector"
	"github.com/DataDog/orchestrion/internal/injector/aspect"
	actx "github.com/DataDog/orchestrion/internal/injector/aspect/context"
	"github.com/DataDog/orchestrion/internal/injector/typed"
	"github.com/DataDog/orchestrion/internal/yaml"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
)

// ParseAspects reads the aspects of a YAML document (a list).
func ParseAspects(doc string) ([]*aspect.Aspect, error) {
	var out struct {
		Aspects []*aspect.Aspect `yaml:"aspects"`
	}
	err := yaml.UnmarshalContext(context.Background(), strings.NewReader(doc), &out)
	return out.Aspects, err
}

// Setup is one run of the injector.
type Setup struct {
	ImportPath string
	TestMain   bool
	GoVersion  string
	Config     map[string]string
	ImportMap  map[string]string // default: what the files import
	Order      []string          // order of the files, default: sorted
}

// Result is what the injector did.
type Result struct {
	Files map[string]string // name -> new text, for the files that were rewritten
	Refs  map[string]map[string]typed.ReferenceKind
	Lang  actx.GoLangVersion
	Err   error
	Dir   string // where the source files were
}

// ImportsOf lists what the files import.
func ImportsOf(files map[string]string) map[string]string {
	out := map[string]string{}
	for name, src := range files {
		f, err := parser.ParseFile(token.NewFileSet(), name, src, parser.ImportsOnly)
		if err != nil {
			continue
		}
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			out[path] = ""
		}
	}
	return out
}

// Inject weaves the files.
func Inject(files map[string]string, aspects []*aspect.Aspect, s Setup) *Result {
	dir, err := os.MkdirTemp("", "inj")
	vh.Must(err)
	defer os.RemoveAll(dir)
	return InjectIn(dir, files, aspects, s)
}

// InjectIn is Inject with the source files written to a given directory, which is kept.
func InjectIn(dir string, files map[string]string, aspects []*aspect.Aspect, s Setup) *Result {
	src, out := filepath.Join(dir, "src"), filepath.Join(dir, "out")
	WriteFiles(src, files)
	vh.Must(os.MkdirAll(out, 0o755))
	if s.ImportPath == "" {
		s.ImportPath = AppPath
	}
	if s.ImportMap == nil {
		s.ImportMap = ImportsOf(files)
	}
	names := s.Order
	if names == nil {
		names = (&Prog{Files: files}).Names()
	}
	paths := make([]string, len(names))
	for i, n := range names {
		paths[i] = filepath.Join(src, n)
	}
	World()
	vh.Risky() // a crash in one of the injector's goroutines cannot be recovered from
	inj := injector.Injector{
		ImportPath:   s.ImportPath,
		TestMain:     s.TestMain,
		GoVersion:    s.GoVersion,
		RootConfig:   s.Config,
		ImportMap:    s.ImportMap,
		Lookup:       Lookup,
		ModifiedFile: func(p string) string { return filepath.Join(out, filepath.Base(p)) },
	}
	res := &Result{Files: map[string]string{}, Refs: map[string]map[string]typed.ReferenceKind{}, Dir: src}
	got, lang, err := inj.InjectFiles(context.Background(), paths, aspects)
	res.Lang, res.Err = lang, err
	if err != nil {
		return res
	}
	for path, f := range got {
		data, err := os.ReadFile(f.Filename)
		if err != nil {
			res.Err = fmt.Errorf("reading rewritten file: %w", err)
			return res
		}
		name := filepath.Base(path)
		res.Files[name] = string(data)
		m := map[string]typed.ReferenceKind{}
		for k, v := range f.References.Map() {
			m[k] = v
		}
		res.Refs[name] = m
	}
	return res
}

// Merged is the package as it will be compiled.
func (r *Result) Merged(files map[string]string) map[string]string {
	out := map[string]string{}
	for n, s := range files {
		out[n] = s
		if m, ok := r.Files[n]; ok {
			out[n] = m
		}
	}
	return out
}

// Checked is a type-checked package.
type Checked struct {
	Fset  *token.FileSet
	Files map[string]*ast.File
	Info  *types.Info
	Pkg   *types.Package
}

// Check type-checks files as a package, as the compiler would.
func Check(importPath string, files map[string]string) (*Checked, error) {
	World()
	c := &Checked{Fset: token.NewFileSet(), Files: map[string]*ast.File{}, Info: &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{},
	}}
	var list []*ast.File
	for _, name := range (&Prog{Files: files}).Names() {
		f, err := parser.ParseFile(c.Fset, name, files[name], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		c.Files[name] = f
		list = append(list, f)
	}
	conf := types.Config{Importer: importer.ForCompiler(c.Fset, runtime.Compiler, Lookup)}
	pkg, err := conf.Check(importPath, c.Fset, list, c.Info)
	c.Pkg = pkg
	return c, err
}
