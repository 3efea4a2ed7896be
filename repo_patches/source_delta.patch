From aff51945fdd296ea530ef282e270f8a2302cff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 01/71] fix: dependency cycles are detected whichever order
 graph edges are visited in

A child node without a path to the target overwrote the path found through a
previous child, so that AddEdge accepted cycles depending on map order.
---
 internal/jobserver/common/graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/jobserver/common/graph.go b/internal/jobserver/common/graph.go
index fd65830..4c105c6 100644
--- a/internal/jobserver/common/graph.go
+++ b/internal/jobserver/common/graph.go
@@ -62,7 +62,7 @@ func (g *Graph) path(from string, to string) []string {
 		if child == to {
 			return []string{from, to}
 		}
-		if childPath := g.path(child, to); path == nil || len(childPath) < len(path) {
+		if childPath := g.path(child, to); childPath != nil && (path == nil || len(childPath) < len(path)) {
 			path = childPath
 		}
 	}
-- 
2.43.0


From 6633297de302cffd81112617cf692e27e303a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:34 +0000
Subject: [PATCH 02/71] fix: import configurations with lines longer than 64
 KiB are read completely

The modinfo line of a link configuration grows with the number of modules of
the build; once it exceeded the scanner's limit it was dropped without an error,
together with everything after it.
---
 internal/toolexec/importcfg/importcfg.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/toolexec/importcfg/importcfg.go b/internal/toolexec/importcfg/importcfg.go
index 48615d0..9bcebfe 100644
--- a/internal/toolexec/importcfg/importcfg.go
+++ b/internal/toolexec/importcfg/importcfg.go
@@ -12,6 +12,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strings"
 
@@ -52,12 +53,11 @@ func ParseFile(ctx context.Context, filename string) (ImportConfig, error) {
 func parse(r io.Reader) (reg ImportConfig, err error) {
 	scanner := bufio.NewScanner(r)
 	scanner.Split(bufio.ScanLines)
+	// The modinfo line of a link configuration grows with the number of modules in the build, and can
+	// exceed the default limit of the scanner.
+	scanner.Buffer(nil, math.MaxInt)
 
 	for scanner.Scan() {
-		if err = scanner.Err(); err != nil {
-			return
-		}
-
 		line := strings.TrimSpace(scanner.Text())
 		if line == "" || line[0] == '#' {
 			continue
@@ -99,6 +99,7 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 		}
 	}
 
+	err = scanner.Err()
 	return
 }
 
-- 
2.43.0


From 8beb9a9e5f5ac5e9531a34470cd3647d8ea92e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 03/71] fix: accept every flag value the compiler and linker
 accept

Counter flags such as -m=2 or -l=4 (go build -gcflags=-m=2) were parsed as
booleans and rejected, and the linker's -D flag was unknown.
---
 internal/toolexec/proxy/compile.flags.go  | 82 ++++++++++++-----------
 internal/toolexec/proxy/generator/main.go | 25 +++----
 internal/toolexec/proxy/link.flags.go     | 51 +++++++-------
 3 files changed, 84 insertions(+), 74 deletions(-)

diff --git a/internal/toolexec/proxy/compile.flags.go b/internal/toolexec/proxy/compile.flags.go
index 95b8dff..1867c6a 100644
--- a/internal/toolexec/proxy/compile.flags.go
+++ b/internal/toolexec/proxy/compile.flags.go
@@ -10,78 +10,82 @@ package proxy
 import "flag"
 
 func (f *compileFlagSet) parse(args []string) ([]string, error) {
-	flagSet := flag.NewFlagSet("compile version go1.25", flag.ContinueOnError)
-	flagSet.Bool("%", false, "debug non-static initializers")
-	flagSet.Bool("+", false, "compiling runtime")
-	flagSet.Bool("B", false, "disable bounds checking")
-	flagSet.Bool("C", false, "disable printing of columns in error messages")
+	flagSet := flag.NewFlagSet("compile version go1.26", flag.ContinueOnError)
+	ignore := func(string) error {
+		return nil
+	}
+
+	flagSet.BoolFunc("%", "debug non-static initializers", ignore)
+	flagSet.BoolFunc("+", "compiling runtime", ignore)
+	flagSet.BoolFunc("B", "disable bounds checking", ignore)
+	flagSet.BoolFunc("C", "disable printing of columns in error messages", ignore)
 	flagSet.String("D", "", "set relative path for local imports")
-	flagSet.Bool("E", false, "debug symbol export")
+	flagSet.BoolFunc("E", "debug symbol export", ignore)
 	flagSet.String("I", "", "add directory to import search path")
-	flagSet.Bool("K", false, "debug missing line numbers")
-	flagSet.Bool("L", false, "also show actual source file names in error messages for positions affected by //line directives")
-	flagSet.Bool("N", false, "disable optimizations")
-	flagSet.Bool("S", false, "print assembly listing")
+	flagSet.BoolFunc("K", "debug missing line numbers", ignore)
+	flagSet.BoolFunc("L", "also show actual source file names in error messages for positions affected by //line directives", ignore)
+	flagSet.BoolFunc("N", "disable optimizations", ignore)
+	flagSet.BoolFunc("S", "print assembly listing", ignore)
 	flagSet.BoolFunc("V", "print version and exit", func(string) error {
 		f.ShowVersion = true
 		return nil
 	})
-	flagSet.Bool("W", false, "debug parse tree after type checking")
-	flagSet.Bool("asan", false, "build code compatible with C/C++ address sanitizer")
+	flagSet.BoolFunc("W", "debug parse tree after type checking", ignore)
+	flagSet.BoolFunc("asan", "build code compatible with C/C++ address sanitizer", ignore)
 	flagSet.StringVar(&f.Asmhdr, "asmhdr", "", "write assembly header to file")
 	flagSet.String("bench", "", "append benchmark times to file")
 	flagSet.String("blockprofile", "", "write block profile to file")
 	flagSet.StringVar(&f.BuildID, "buildid", "", "record id as the build id in the export metadata")
 	flagSet.Int("c", 0, "concurrency during compilation (1 means no concurrency)")
-	flagSet.Bool("clobberdead", false, "clobber dead stack slots (for debugging)")
-	flagSet.Bool("clobberdeadreg", false, "clobber dead registers (for debugging)")
-	flagSet.Bool("complete", false, "compiling complete package (no C or assembly)")
+	flagSet.BoolFunc("clobberdead", "clobber dead stack slots (for debugging)", ignore)
+	flagSet.BoolFunc("clobberdeadreg", "clobber dead registers (for debugging)", ignore)
+	flagSet.BoolFunc("complete", "compiling complete package (no C or assembly)", ignore)
 	flagSet.String("coveragecfg", "", "read coverage configuration from file")
 	flagSet.String("cpuprofile", "", "write cpu profile to file")
 	flagSet.String("d", "", "enable debugging settings; try -d help")
-	flagSet.Bool("dwarf", false, "generate DWARF symbols")
-	flagSet.Bool("dwarfbasentries", false, "use base address selection entries in DWARF")
-	flagSet.Bool("dwarflocationlists", false, "add location lists to DWARF in optimized mode")
-	flagSet.Bool("dynlink", false, "support references to Go symbols defined in other shared libraries")
-	flagSet.Bool("e", false, "no limit on number of errors reported")
+	flagSet.BoolFunc("dwarf", "generate DWARF symbols", ignore)
+	flagSet.BoolFunc("dwarfbasentries", "use base address selection entries in DWARF", ignore)
+	flagSet.BoolFunc("dwarflocationlists", "add location lists to DWARF in optimized mode", ignore)
+	flagSet.BoolFunc("dynlink", "support references to Go symbols defined in other shared libraries", ignore)
+	flagSet.BoolFunc("e", "no limit on number of errors reported", ignore)
 	flagSet.String("embedcfg", "", "read go:embed configuration from file")
 	flagSet.String("env", "", "add definition of the form key=value to environment")
-	flagSet.Bool("errorurl", false, "print explanatory URL with error message if applicable")
+	flagSet.BoolFunc("errorurl", "print explanatory URL with error message if applicable", ignore)
 	flagSet.Int("gendwarfinl", 0, "generate DWARF inline info records")
 	flagSet.String("goversion", "", "required version of the runtime")
-	flagSet.Bool("h", false, "halt on error")
+	flagSet.BoolFunc("h", "halt on error", ignore)
 	flagSet.StringVar(&f.ImportCfg, "importcfg", "", "read import configuration from file")
 	flagSet.String("installsuffix", "", "set pkg directory suffix")
-	flagSet.Bool("j", false, "debug runtime-initialized variables")
+	flagSet.BoolFunc("j", "debug runtime-initialized variables", ignore)
 	flagSet.String("json", "", "version,file for JSON compiler/optimizer detail output")
-	flagSet.Bool("l", false, "disable inlining")
+	flagSet.BoolFunc("l", "disable inlining", ignore)
 	flagSet.StringVar(&f.Lang, "lang", "", "Go language version source code expects")
 	flagSet.String("linkobj", "", "write linker-specific object to file")
-	flagSet.Bool("linkshared", false, "generate code that will be linked against Go shared libraries")
-	flagSet.Bool("live", false, "debug liveness analysis")
-	flagSet.Bool("m", false, "print optimization decisions")
+	flagSet.BoolFunc("linkshared", "generate code that will be linked against Go shared libraries", ignore)
+	flagSet.BoolFunc("live", "debug liveness analysis", ignore)
+	flagSet.BoolFunc("m", "print optimization decisions", ignore)
 	flagSet.String("memprofile", "", "write memory profile to file")
 	flagSet.String("memprofilerate", "", "set runtime.MemProfileRate to rate")
-	flagSet.Bool("msan", false, "build code compatible with C/C++ memory sanitizer")
+	flagSet.BoolFunc("msan", "build code compatible with C/C++ memory sanitizer", ignore)
 	flagSet.String("mutexprofile", "", "write mutex profile to file")
-	flagSet.Bool("nolocalimports", false, "reject local (relative) imports")
+	flagSet.BoolFunc("nolocalimports", "reject local (relative) imports", ignore)
 	flagSet.StringVar(&f.Output, "o", "", "write output to file")
 	flagSet.StringVar(&f.Package, "p", "", "set expected package import path")
-	flagSet.Bool("pack", false, "write to file.a instead of file.o")
+	flagSet.BoolFunc("pack", "write to file.a instead of file.o", ignore)
 	flagSet.String("pgoprofile", "", "read profile or pre-process profile from file")
-	flagSet.Bool("r", false, "debug generated wrappers")
-	flagSet.Bool("race", false, "enable race detector")
-	flagSet.Bool("shared", false, "generate code that can be linked into a shared library")
-	flagSet.Bool("smallframes", false, "reduce the size limit for stack allocated objects")
+	flagSet.BoolFunc("r", "debug generated wrappers", ignore)
+	flagSet.BoolFunc("race", "enable race detector", ignore)
+	flagSet.BoolFunc("shared", "generate code that can be linked into a shared library", ignore)
+	flagSet.BoolFunc("smallframes", "reduce the size limit for stack allocated objects", ignore)
 	flagSet.String("spectre", "", "enable spectre mitigations in list (all, index, ret)")
-	flagSet.Bool("std", false, "compiling standard library")
+	flagSet.BoolFunc("std", "compiling standard library", ignore)
 	flagSet.String("symabis", "", "read symbol ABIs from file")
-	flagSet.Bool("t", false, "enable tracing for debugging the compiler")
+	flagSet.BoolFunc("t", "enable tracing for debugging the compiler", ignore)
 	flagSet.String("traceprofile", "", "write an execution trace to file")
 	flagSet.String("trimpath", "", "remove prefix from recorded source file paths")
-	flagSet.Bool("v", false, "increase debug verbosity")
-	flagSet.Bool("w", false, "debug type checking")
-	flagSet.Bool("wb", false, "enable write barrier")
+	flagSet.BoolFunc("v", "increase debug verbosity", ignore)
+	flagSet.BoolFunc("w", "debug type checking", ignore)
+	flagSet.BoolFunc("wb", "enable write barrier", ignore)
 
 	err := flagSet.Parse(args)
 	return flagSet.Args(), err
diff --git a/internal/toolexec/proxy/generator/main.go b/internal/toolexec/proxy/generator/main.go
index 069ecbb..8f619f4 100644
--- a/internal/toolexec/proxy/generator/main.go
+++ b/internal/toolexec/proxy/generator/main.go
@@ -215,6 +215,9 @@ func main() {
 					jen.Qual("flag", "ContinueOnError"),
 				)
 
+			g.Id("ignore").Op(":=").Func().Params(jen.String()).Error().Block(jen.Return(jen.Nil()))
+			g.Line()
+
 			// reDefault captures default values found in flag descriptions. See: https://regex101.com/r/jDEwWQ/1
 			reDefault := regexp.MustCompile(`^(.+?)(?:\s+\(default\s+(.+?)\))?$`)
 			for _, spec := range flags {
@@ -224,7 +227,7 @@ func main() {
 					funcName     string
 					strDefault   string
 					defaultValue *jen.Statement
-					zeroValue    *jen.Statement
+					zeroValue    *jen.Statement // Not set for booleans
 				)
 
 				descr := strings.Join(spec.Descr, " ")
@@ -236,7 +239,6 @@ func main() {
 				switch spec.Value {
 				case "":
 					funcName = "Bool"
-					zeroValue = jen.False()
 					if strDefault == "" || strDefault == "false" {
 						defaultValue = jen.False()
 					} else {
@@ -262,17 +264,16 @@ func main() {
 
 				flagName := jen.Lit(spec.Flag[1:])
 
-				if funcName == "Bool" && spec.Flag == "-V" {
-					var handler *jen.Statement
-					if captured {
-						handler = jen.Func().Params(jen.String()).Error().Block(
-							jen.Id("f").Dot(fieldName).Op("=").True(),
-							jen.Return(jen.Nil()),
-						)
-					} else {
-						handler = jen.Func().Params(jen.String()).Error().Block(jen.Return(jen.Nil()))
-					}
+				if funcName == "Bool" && spec.Flag == "-V" && captured {
+					handler := jen.Func().Params(jen.String()).Error().Block(
+						jen.Id("f").Dot(fieldName).Op("=").True(),
+						jen.Return(jen.Nil()),
+					)
 					g.Id("flagSet").Dot("BoolFunc").Call(flagName, jen.Lit(descr), handler)
+				} else if funcName == "Bool" && !captured {
+					// Many of these are counters, which the usage text does not tell from booleans: the tool accepts
+					// numeric values (e.g, "-m=2"). Let the tool itself validate the value.
+					g.Id("flagSet").Dot("BoolFunc").Call(flagName, jen.Lit(descr), jen.Id("ignore"))
 				} else if captured {
 					g.Id("flagSet").Dot(funcName+"Var").Call(jen.Op("&").Id("f").Dot(fieldName), flagName, defaultValue, jen.Lit(descr))
 				} else {
diff --git a/internal/toolexec/proxy/link.flags.go b/internal/toolexec/proxy/link.flags.go
index 1e6cfca..74cd776 100644
--- a/internal/toolexec/proxy/link.flags.go
+++ b/internal/toolexec/proxy/link.flags.go
@@ -10,8 +10,13 @@ package proxy
 import "flag"
 
 func (f *linkFlagSet) parse(args []string) ([]string, error) {
-	flagSet := flag.NewFlagSet("link version go1.25", flag.ContinueOnError)
+	flagSet := flag.NewFlagSet("link version go1.26", flag.ContinueOnError)
+	ignore := func(string) error {
+		return nil
+	}
+
 	flagSet.String("B", "", "set ELF NT_GNU_BUILD_ID note or Mach-O UUID; use \"gobuildid\" to generate it from the Go build ID; \"none\" to disable")
+	flagSet.Int("D", 0, "set the start address of data symbols")
 	flagSet.String("E", "", "set entry symbol name")
 	flagSet.String("H", "", "set header type")
 	flagSet.String("I", "", "use linker as ELF dynamic linker")
@@ -23,54 +28,54 @@ func (f *linkFlagSet) parse(args []string) ([]string, error) {
 		return nil
 	})
 	flagSet.String("X", "", "add string value definition of the form importpath.name=value")
-	flagSet.Bool("a", false, "no-op (deprecated)")
-	flagSet.Bool("asan", false, "enable ASan interface")
-	flagSet.Bool("aslr", false, "enable ASLR for buildmode=c-shared on windows")
+	flagSet.BoolFunc("a", "no-op (deprecated)", ignore)
+	flagSet.BoolFunc("asan", "enable ASan interface", ignore)
+	flagSet.BoolFunc("aslr", "enable ASLR for buildmode=c-shared on windows", ignore)
 	flagSet.String("benchmark", "", "set to 'mem' or 'cpu' to enable phase benchmarking")
 	flagSet.String("benchmarkprofile", "", "emit phase profiles to base_phase.{cpu,mem}prof")
-	flagSet.Bool("bindnow", false, "mark a dynamically linked ELF object for immediate function binding")
+	flagSet.BoolFunc("bindnow", "mark a dynamically linked ELF object for immediate function binding", ignore)
 	flagSet.String("buildid", "", "record id as Go toolchain build id")
 	flagSet.StringVar(&f.BuildMode, "buildmode", "", "set build mode")
-	flagSet.Bool("c", false, "dump call graph")
+	flagSet.BoolFunc("c", "dump call graph", ignore)
 	flagSet.String("capturehostobjs", "", "capture host object files loaded during internal linking to specified dir")
-	flagSet.Bool("checklinkname", false, "check linkname symbol references")
-	flagSet.Bool("compressdwarf", false, "compress DWARF if possible")
+	flagSet.BoolFunc("checklinkname", "check linkname symbol references", ignore)
+	flagSet.BoolFunc("compressdwarf", "compress DWARF if possible", ignore)
 	flagSet.String("cpuprofile", "", "write cpu profile to file")
-	flagSet.Bool("d", false, "disable dynamic executable")
-	flagSet.Bool("debugnosplit", false, "dump nosplit call graph")
+	flagSet.BoolFunc("d", "disable dynamic executable", ignore)
+	flagSet.BoolFunc("debugnosplit", "dump nosplit call graph", ignore)
 	flagSet.Int("debugtextsize", 0, "debug text section max size")
 	flagSet.Int("debugtramp", 0, "debug trampolines")
-	flagSet.Bool("dumpdep", false, "dump symbol dependency graph")
-	flagSet.Bool("e", false, "no limit on number of errors reported")
+	flagSet.BoolFunc("dumpdep", "dump symbol dependency graph", ignore)
+	flagSet.BoolFunc("e", "no limit on number of errors reported", ignore)
 	flagSet.String("extar", "", "archive program for buildmode=c-archive")
 	flagSet.String("extld", "", "use linker when linking in external mode")
 	flagSet.String("extldflags", "", "pass flags to external linker")
-	flagSet.Bool("f", false, "ignore version mismatch")
+	flagSet.BoolFunc("f", "ignore version mismatch", ignore)
 	flagSet.String("fipso", "", "write fips module to file")
 	flagSet.String("funcalign", "", "set function align to N bytes")
-	flagSet.Bool("g", false, "disable go package data checks")
-	flagSet.Bool("h", false, "halt on error")
+	flagSet.BoolFunc("g", "disable go package data checks", ignore)
+	flagSet.BoolFunc("h", "halt on error", ignore)
 	flagSet.StringVar(&f.ImportCfg, "importcfg", "", "read import configuration from file")
 	flagSet.String("installsuffix", "", "set package directory suffix")
 	flagSet.String("k", "", "set field tracking symbol")
 	flagSet.String("libgcc", "", "compiler support lib for internal linking; use \"none\" to disable")
 	flagSet.String("linkmode", "", "set link mode")
-	flagSet.Bool("linkshared", false, "link against installed Go shared libraries")
+	flagSet.BoolFunc("linkshared", "link against installed Go shared libraries", ignore)
 	flagSet.String("memprofile", "", "write memory profile to file")
 	flagSet.String("memprofilerate", "", "set runtime.MemProfileRate to rate")
-	flagSet.Bool("msan", false, "enable MSan interface")
-	flagSet.Bool("n", false, "no-op (deprecated)")
+	flagSet.BoolFunc("msan", "enable MSan interface", ignore)
+	flagSet.BoolFunc("n", "no-op (deprecated)", ignore)
 	flagSet.StringVar(&f.Output, "o", "", "write output to file")
 	flagSet.String("pluginpath", "", "full path name for plugin")
-	flagSet.Bool("pruneweakmap", false, "prune weak mapinit refs")
+	flagSet.BoolFunc("pruneweakmap", "prune weak mapinit refs", ignore)
 	flagSet.String("r", "", "set the ELF dynamic linker search path to dir1:dir2:...")
-	flagSet.Bool("race", false, "enable race detector")
+	flagSet.BoolFunc("race", "enable race detector", ignore)
 	flagSet.Int("randlayout", 0, "randomize function layout")
-	flagSet.Bool("s", false, "disable symbol table")
+	flagSet.BoolFunc("s", "disable symbol table", ignore)
 	flagSet.Int("strictdups", 0, "sanity check duplicate symbol contents during object file reading (1=warn 2=err).")
 	flagSet.String("tmpdir", "", "use directory for temporary files")
-	flagSet.Bool("v", false, "print link trace")
-	flagSet.Bool("w", false, "disable DWARF generation")
+	flagSet.BoolFunc("v", "print link trace", ignore)
+	flagSet.BoolFunc("w", "disable DWARF generation", ignore)
 
 	err := flagSet.Parse(args)
 	return flagSet.Args(), err
-- 
2.43.0


From 9ef07897c6ce21d16bd15f7a8943107471f76ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 04/71] fix: setting a repeated compiler flag changes the
 occurrence that counts

With several -lang flags (go build -gcflags=-lang=go1.18), raising the language
level edited a random one of them instead of the last, which is the effective one.
---
 internal/toolexec/proxy/proxy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/toolexec/proxy/proxy.go b/internal/toolexec/proxy/proxy.go
index 296d3c2..b4ba802 100644
--- a/internal/toolexec/proxy/proxy.go
+++ b/internal/toolexec/proxy/proxy.go
@@ -104,8 +104,10 @@ func (*command) Close(context.Context, error) error {
 // SetFlag replaces the value of the specified flag with the provided one.
 // Returns an error if the flag is not present in the current arguments list.
 func (cmd *command) SetFlag(flag string, val string) error {
-	for arg, idx := range cmd.paramPos {
-		if arg == flag || arg == "-"+flag {
+	// When a flag is repeated, its last occurrence is the one that counts.
+	for idx := len(cmd.args) - 1; idx > 0; idx-- {
+		arg := cmd.args[idx]
+		if (arg == flag || arg == "-"+flag) && idx+1 < len(cmd.args) {
 			cmd.args[idx+1] = val
 			return nil
 		}
-- 
2.43.0


From 65dba5b3163f2312310249c448030d91b0487588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 05/71] fix: read build flags from go command lines as the go
 command does

- a flag without its value, or a lone -C, crashed the parser;
- boolean flags with an explicit value (-race=true, -race=false) were lost;
- arguments of the program started by 'go run', and of the test binary after
  -args, were taken for build flags;
- boolean flags such as -v swallowed the package that follows, and so did flags
  from GOFLAGS, so coverage was inferred for other packages;
- -coverprofile did not imply -cover;
- of several per-package flags (-gcflags=all=-N -gcflags=x=-l) only the last was
  kept.
---
 internal/goflags/flags.go | 137 +++++++++++++++++++++++++++++++++++---
 1 file changed, 129 insertions(+), 8 deletions(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index cf28d54..4146cbf 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -18,6 +18,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"slices"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -33,6 +34,10 @@ type CommandFlags struct {
 	Long    map[string]string
 	Short   map[string]struct{}
 	Unknown []string // flags we don't process but store anyway
+
+	// repeated has the values of per-package flags (e.g, "-gcflags") that precede the one in Long: they
+	// accumulate instead of overriding each other.
+	repeated map[string][]string
 }
 
 var (
@@ -66,6 +71,37 @@ var (
 		"-tags":          {}, // Set build tags
 		"-toolexec":      {}, // Set the command to run around tool execution
 	}
+	// perPackageFlags are those of the [longFlags] that have an optional package pattern in their value, and can be
+	// repeated so as to apply to different packages.
+	perPackageFlags = map[string]struct{}{
+		"-asmflags":   {},
+		"-gccgoflags": {},
+		"-gcflags":    {},
+		"-ldflags":    {},
+	}
+	// otherBoolFlags are boolean flags of the go commands that are not build flags we process. The argument that follows
+	// them is never their value.
+	otherBoolFlags = map[string]struct{}{
+		"-benchmem": {},
+		"-c":        {},
+		"-compiled": {},
+		"-deps":     {},
+		"-e":        {},
+		"-export":   {},
+		"-failfast": {},
+		"-find":     {},
+		"-fullpath": {},
+		"-i":        {},
+		"-json":     {},
+		"-m":        {},
+		"-n":        {},
+		"-short":    {},
+		"-t":        {},
+		"-test":     {},
+		"-u":        {},
+		"-v":        {},
+		"-x":        {},
+	}
 )
 
 // Get returns the value of the specified long-form flag if present. The name is
@@ -95,6 +131,12 @@ func (f CommandFlags) Except(remove ...string) CommandFlags {
 			continue
 		}
 		res.Long[k] = v
+		if prior := f.repeated[k]; len(prior) > 0 {
+			if res.repeated == nil {
+				res.repeated = make(map[string][]string)
+			}
+			res.repeated[k] = prior
+		}
 	}
 
 	return res
@@ -107,6 +149,9 @@ func (f CommandFlags) Except(remove ...string) CommandFlags {
 func (f CommandFlags) Slice() []string {
 	flags := make([]string, 0, len(f.Long)+len(f.Short))
 	for flag, val := range f.Long {
+		for _, prior := range f.repeated[flag] {
+			flags = append(flags, fmt.Sprintf("%s=%s", flag, prior))
+		}
 		flags = append(flags, fmt.Sprintf("%s=%s", flag, val))
 	}
 	for flag := range f.Short {
@@ -142,7 +187,7 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 				// ["-C", "directory", ...]
 				log.Trace().Strs("flag", args[:2]).Msg("Skipping '-C <dir>' flag")
 				args = args[2:]
-			} else if arg[:3] == "-C=" {
+			} else if strings.HasPrefix(arg, "-C=") {
 				// ["-C=directory", ...]
 				log.Trace().Str("flag", arg).Msg("Skipping '-C=<dir>' flag")
 				args = args[1:]
@@ -152,8 +197,10 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 
 	// The next argument after a `-C` (if present) would be the go command name ("run", "test", "list", etc...). This is
 	// not interesting for our purposes, so we skip it.
+	var command string
 	if len(args) > 0 {
-		log.Trace().Str("command", args[0]).Msg("Go command from arguments")
+		command = args[0]
+		log.Trace().Str("command", command).Msg("Go command from arguments")
 		args = args[1:]
 	}
 
@@ -161,21 +208,34 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 	// as the CLI arguments have precedence over those from GOFLAGS.
 	args = append(append(make([]string, 0, len(goflagsArgs)+len(args)), goflagsArgs...), args...)
 
-	var positional []string
+	var (
+		positional     []string
+		packagesListed bool // Whether the package list is complete ("go test" accepts flags after it)
+	)
 	for i := 0; i < len(args); i++ {
 		arg := args[i]
 
 		// Any argument after "--" is a positional argument, so we are done parsing.
 		if arg == "--" {
-			positional = append(positional, args[i+1:]...)
+			positional = append(positional, packageArgs(command, args[i+1:])...)
 			break
 		}
 
 		// Any argument without a leading "-" is a positional argument (until proven otherwise).
 		if !strings.HasPrefix(arg, "-") {
+			if command != "test" {
+				// No other command accepts flags after the first positional argument.
+				positional = append(positional, packageArgs(command, args[i:])...)
+				break
+			}
+			if packagesListed {
+				// This and everything that follows is passed to the test binary.
+				break
+			}
 			positional = append(positional, arg)
 			continue
 		}
+		packagesListed = len(positional) > 0
 
 		normArg := arg
 		if strings.HasPrefix(arg, "--") {
@@ -184,21 +244,45 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 			normArg = arg[1:]
 		}
 
-		if key, val, isAssigned := strings.Cut(normArg, "="); isAssigned {
+		if command == "test" && normArg == "-args" {
+			// The remainder of the command line is passed to the test binary.
+			break
+		}
+
+		key, val, isAssigned := strings.Cut(normArg, "=")
+		if key == "-coverprofile" {
+			// -coverprofile implies -cover
+			flags.setShort("-cover", true)
+		}
+		if isAssigned {
 			if isLong(key) {
-				flags.Long[key] = val
+				flags.setLong(key, val)
+			} else if enabled, err := strconv.ParseBool(val); err == nil && isShort(key) {
+				flags.setShort(key, enabled)
 			} else {
 				// Intentionally the un-normalized variant in Unknown flags.
 				flags.Unknown = append(flags.Unknown, arg)
 			}
+		} else if normArg == "-buildvcs" && isLong(normArg) {
+			// This one has a value, but may also be used as a boolean.
+			flags.setLong(normArg, "true")
 		} else if isLong(normArg) {
-			flags.Long[normArg] = args[i+1]
+			if len(args) <= i+1 {
+				// The go command will complain about the missing value.
+				flags.Unknown = append(flags.Unknown, arg)
+				continue
+			}
+			flags.setLong(normArg, args[i+1])
 			i++
 		} else if isShort(normArg) {
-			flags.Short[normArg] = struct{}{}
+			flags.setShort(normArg, true)
 		} else {
 			// Intentionally the un-normalized variant in Unknown flags.
 			flags.Unknown = append(flags.Unknown, arg)
+			if _, isBool := otherBoolFlags[normArg]; isBool || i < len(goflagsArgs) {
+				// Boolean flags don't have a value, and flags from GOFLAGS have it in the same argument.
+				continue
+			}
 			// If there's more args, and the next one does not have a leading -, we'll assume this is the value of this
 			// unknown flag and consume it.
 			if len(args) > i+1 && !strings.HasPrefix(args[i+1], "-") {
@@ -216,6 +300,43 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 	return flags, nil
 }
 
+// setLong records a flag that has a value.
+func (f *CommandFlags) setLong(flag string, val string) {
+	if prior, found := f.Long[flag]; found {
+		if _, accumulates := perPackageFlags[flag]; accumulates {
+			if f.repeated == nil {
+				f.repeated = make(map[string][]string)
+			}
+			f.repeated[flag] = append(f.repeated[flag], prior)
+		}
+	}
+	f.Long[flag] = val
+}
+
+// setShort records a boolean flag. Flags that are explicitly disabled are kept, as they may be enabled by $GOFLAGS.
+func (f *CommandFlags) setShort(flag string, enabled bool) {
+	if enabled {
+		delete(f.Long, flag)
+		f.Short[flag] = struct{}{}
+		return
+	}
+	delete(f.Short, flag)
+	f.Long[flag] = "false"
+}
+
+// packageArgs returns those of the positional arguments of a go command that designate packages.
+func packageArgs(command string, args []string) []string {
+	if command != "run" || len(args) == 0 {
+		return args
+	}
+	// Arguments that follow the package (or its Go files) are those of the program being run.
+	n := 0
+	for n < len(args) && strings.HasSuffix(args[n], ".go") {
+		n++
+	}
+	return args[:max(n, 1)]
+}
+
 // inferCoverpkg will add the necessary `-coverpkg` argument if the `-cover` flags is present and
 // `-coverpkg` is not, as otherwise, sub-commands triggered with these flags will not apply coverage
 // to the intended packages.
-- 
2.43.0


From 123f0aa375078258739559d7283620817c819184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 06/71] fix: the root module is found when its directory
 contains no Go files

---
 internal/goenv/goenv.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/internal/goenv/goenv.go b/internal/goenv/goenv.go
index d58e476..3c1dbde 100644
--- a/internal/goenv/goenv.go
+++ b/internal/goenv/goenv.go
@@ -15,7 +15,7 @@ import (
 	"strings"
 	"sync"
 
-	"golang.org/x/tools/go/packages"
+	"golang.org/x/mod/modfile"
 )
 
 var (
@@ -34,7 +34,7 @@ type Module struct {
 
 var (
 	muCache sync.RWMutex
-	// Cache for module path lookups to avoid repeated calls to go list.
+	// Cache for module path lookups to avoid repeated calls to go env.
 	modulePathCache = make(map[string]string)
 )
 
@@ -57,7 +57,7 @@ func GOMOD(dir string) (string, error) {
 
 // modulePath returns the module path of the current module using go/packages API.
 // Results are cached to avoid repeated package loading calls.
-func modulePath(ctx context.Context, dir string) (string, error) {
+func modulePath(dir string) (string, error) {
 	muCache.RLock()
 	cached, exists := modulePathCache[dir]
 	muCache.RUnlock()
@@ -65,22 +65,18 @@ func modulePath(ctx context.Context, dir string) (string, error) {
 		return cached, nil
 	}
 
-	cfg := &packages.Config{
-		Context: ctx,
-		Dir:     dir,
-		Mode:    packages.NeedModule,
-	}
-
-	pkgs, err := packages.Load(cfg, ".")
+	// Reading the go.mod file instead of loading the package in "dir", as there may not be one: the root directory of a
+	// module often contains no Go source files at all.
+	goMod, err := GOMOD(dir)
 	if err != nil {
-		return "", fmt.Errorf("loading package in %q: %w", dir, err)
+		return "", err
 	}
-
-	if len(pkgs) == 0 || pkgs[0].Module == nil {
-		return "", fmt.Errorf("in %q: %w", dir, ErrNoModulePath)
+	data, err := os.ReadFile(goMod)
+	if err != nil {
+		return "", fmt.Errorf("reading %q: %w", goMod, err)
 	}
 
-	modulePath := pkgs[0].Module.Path
+	modulePath := modfile.ModulePath(data)
 	if modulePath == "" {
 		return "", fmt.Errorf("in %q: %w", dir, ErrNoModulePath)
 	}
@@ -94,11 +90,11 @@ func modulePath(ctx context.Context, dir string) (string, error) {
 
 // RootModulePath returns the root module path for the current working directory.
 // This is a convenience function that calls ModulePath with the current directory.
-func RootModulePath(ctx context.Context) (string, error) {
+func RootModulePath(_ context.Context) (string, error) {
 	// Getwd returns an absolute path name corresponding to the current directory.
 	wd, err := os.Getwd()
 	if err != nil {
 		return "", fmt.Errorf("getting working directory: %w", err)
 	}
-	return modulePath(ctx, wd)
+	return modulePath(wd)
 }
-- 
2.43.0


From 47098a3421dcadc768092a649df11613fdcd3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 07/71] fix: declaration-of only matches top-level symbols

---
 internal/injector/aspect/join/declaration.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/injector/aspect/join/declaration.go b/internal/injector/aspect/join/declaration.go
index 42ef9bb..4a0135b 100644
--- a/internal/injector/aspect/join/declaration.go
+++ b/internal/injector/aspect/join/declaration.go
@@ -36,7 +36,8 @@ func (i *declarationOf) Matches(ctx context.AspectContext) bool {
 
 	switch node := ctx.Node().(type) {
 	case *dst.FuncDecl:
-		return node.Name != nil && node.Name.Name == i.Name
+		// Methods are not symbols of the package, even if they have the same name as one.
+		return node.Recv == nil && node.Name != nil && node.Name.Name == i.Name
 	case *dst.ValueSpec:
 		if parent := ctx.Chain().Parent(); parent == nil {
 			// No parent, this is almost certainly a syntax error...
@@ -44,6 +45,11 @@ func (i *declarationOf) Matches(ctx context.AspectContext) bool {
 		} else if _, isGenDecl := parent.Node().(*dst.GenDecl); !isGenDecl {
 			// Parent isn't a GenDecl, so this is not a top-level declaration.
 			return false
+		} else if grandParent := parent.Parent(); grandParent == nil {
+			return false
+		} else if _, isFile := grandParent.Node().(*dst.File); !isFile {
+			// The GenDecl is in a function, so this is not a top-level declaration.
+			return false
 		}
 		for _, name := range node.Names {
 			if name.Name == i.Name {
-- 
2.43.0


From 7e1b4d34c4af837880526e324fc05e27ec25830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 08/71] fix: parent contexts know they are in a test main
 package

---
 internal/injector/aspect/context/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/injector/aspect/context/context.go b/internal/injector/aspect/context/context.go
index be6aca8..39b1902 100644
--- a/internal/injector/aspect/context/context.go
+++ b/internal/injector/aspect/context/context.go
@@ -215,6 +215,7 @@ func (c *context) Parent() AspectContext {
 		file:       c.file,
 		refMap:     c.refMap,
 		importPath: c.importPath,
+		testMain:   c.testMain,
 		typeInfo:   c.typeInfo,
 		nodeMap:    c.nodeMap,
 	}
-- 
2.43.0


From 12c92a0925d7b7621498db75d66d04fe6ec7792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 09/71] fix: function-call does not match calls to methods of
 package-level values

---
 internal/injector/aspect/join/expression.go | 22 +++++----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/internal/injector/aspect/join/expression.go b/internal/injector/aspect/join/expression.go
index 3631f13..169de57 100644
--- a/internal/injector/aspect/join/expression.go
+++ b/internal/injector/aspect/join/expression.go
@@ -45,23 +45,11 @@ func (i *functionCall) Matches(ctx context.AspectContext) bool {
 		return false
 	}
 
-	switch fun := call.Fun.(type) {
-	case *dst.Ident:
-		return fun.Path == i.ImportPath && fun.Name == i.Name
-	case *dst.SelectorExpr:
-		if fun.Sel.Name != i.Name {
-			return false
-		}
-		ident, ok := fun.X.(*dst.Ident)
-		if !ok {
-			return false
-		}
-
-		// TODO: Must actually look at whether ident.Name is the import of the relevant package path.
-		return ident.Path == i.ImportPath
-	default:
-		return false
-	}
+	// Qualified identifiers are decorated as a [*dst.Ident] with a Path, so that a
+	// [*dst.SelectorExpr] always denotes a field or a method, possibly of a value
+	// that is itself declared in the package; it is never one of its functions.
+	fun, ok := call.Fun.(*dst.Ident)
+	return ok && fun.Path == i.ImportPath && fun.Name == i.Name
 }
 
 func (i *functionCall) Hash(h *fingerprint.Hasher) error {
-- 
2.43.0


From 34f1ec65030dc7772c898159e63acd8862d1e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 10/71] fix: struct-definition does not match types local to a
 function

---
 internal/injector/aspect/join/struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/injector/aspect/join/struct.go b/internal/injector/aspect/join/struct.go
index 304dbc0..066a688 100644
--- a/internal/injector/aspect/join/struct.go
+++ b/internal/injector/aspect/join/struct.go
@@ -64,6 +64,15 @@ func (s *structDefinition) Matches(ctx context.AspectContext) bool {
 		return false
 	}
 
+	// Only top-level types have a fully qualified name; the parent is a [*dst.GenDecl].
+	if parent := ctx.Chain().Parent(); parent == nil {
+		return false
+	} else if grandParent := parent.Parent(); grandParent == nil {
+		return false
+	} else if _, isFile := grandParent.Node().(*dst.File); !isFile {
+		return false
+	}
+
 	return ctx.ImportPath() == s.TypeName.ImportPath
 }
 
-- 
2.43.0


From 29f51e03a511474bd45d9cb08330d820a2ff9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 11/71] fix: method-call matches receivers whose type is
 written through an alias

---
 internal/injector/aspect/join/method_call.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/injector/aspect/join/method_call.go b/internal/injector/aspect/join/method_call.go
index 9061fdb..ff17ab9 100644
--- a/internal/injector/aspect/join/method_call.go
+++ b/internal/injector/aspect/join/method_call.go
@@ -80,7 +80,7 @@ func (m *methodCall) matchesType(t types.Type) bool {
 
 	switch m.Match {
 	case MethodCallMatchPointerOnly:
-		ptr, ok := t.(*types.Pointer)
+		ptr, ok := types.Unalias(t).(*types.Pointer)
 		if !ok {
 			return false
 		}
@@ -88,7 +88,7 @@ func (m *methodCall) matchesType(t types.Type) bool {
 	case MethodCallMatchValueOnly:
 		return m.matchesNamed(t)
 	default: // MethodCallMatchAny
-		if ptr, ok := t.(*types.Pointer); ok {
+		if ptr, ok := types.Unalias(t).(*types.Pointer); ok {
 			t = ptr.Elem()
 		}
 		return m.matchesNamed(t)
@@ -96,7 +96,7 @@ func (m *methodCall) matchesType(t types.Type) bool {
 }
 
 func (m *methodCall) matchesNamed(t types.Type) bool {
-	named, ok := t.(*types.Named)
+	named, ok := types.Unalias(t).(*types.Named)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From d1f3d0345b64603f34a1cf0c2b1dd2003dfb644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 12/71] fix: signature counts every parameter of grouped
 declarations

---
 internal/injector/aspect/join/function.go | 42 +++++++++--------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/internal/injector/aspect/join/function.go b/internal/injector/aspect/join/function.go
index ab9fd3c..929232f 100644
--- a/internal/injector/aspect/join/function.go
+++ b/internal/injector/aspect/join/function.go
@@ -191,35 +191,25 @@ func (fo *signature) impliesImported() (list []string) {
 }
 
 func (fo *signature) evaluate(info functionInformation) bool {
-	if info.Type.Results == nil || len(info.Type.Results.List) == 0 {
-		if len(fo.Results) != 0 {
-			return false
-		}
-	} else if len(info.Type.Results.List) != len(fo.Results) {
-		return false
-	} else {
-		for i := 0; i < len(fo.Results); i++ {
-			if !fo.Results[i].Matches(info.Type.Results.List[i].Type) {
-				return false
-			}
-		}
-	}
-
-	if info.Type.Params == nil || len(info.Type.Params.List) == 0 {
-		if len(fo.Arguments) != 0 {
-			return false
-		}
-	} else if len(info.Type.Params.List) != len(fo.Arguments) {
-		return false
-	} else {
-		for i := 0; i < len(fo.Arguments); i++ {
-			if !fo.Arguments[i].Matches(info.Type.Params.List[i].Type) {
-				return false
+	return matchesTypes(fo.Results, info.Type.Results) && matchesTypes(fo.Arguments, info.Type.Params)
+}
+
+// matchesTypes checks whether the parameters or results declared by the fieldList
+// have exactly the expected types, in order. A single field may declare several
+// of them (e.g, "a, b int").
+func matchesTypes(expectedTypes []typed.TypeName, fieldList *dst.FieldList) bool {
+	idx := 0
+	if fieldList != nil {
+		for _, field := range fieldList.List {
+			for range max(len(field.Names), 1) {
+				if idx >= len(expectedTypes) || !expectedTypes[idx].Matches(field.Type) {
+					return false
+				}
+				idx++
 			}
 		}
 	}
-
-	return true
+	return idx == len(expectedTypes)
 }
 
 func (fo *signature) Hash(h *fingerprint.Hasher) error {
-- 
2.43.0


From 044f1f274d9ec8aaca95d67f050ed9d9ca0fb169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 13/71] fix: a pointer to any does not match the empty
 interface

---
 internal/injector/typed/typename.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/injector/typed/typename.go b/internal/injector/typed/typename.go
index 2a83829..5566d74 100644
--- a/internal/injector/typed/typename.go
+++ b/internal/injector/typed/typename.go
@@ -100,7 +100,7 @@ func (n TypeName) Matches(node dst.Expr) bool {
 		if len(node.Methods.List) != 0 {
 			return false
 		}
-		return n.ImportPath == "" && n.Name == "any"
+		return !n.Pointer && n.ImportPath == "" && n.Name == "any"
 
 	default:
 		return false
-- 
2.43.0


From 3436b3b65320467adce46ce2714d3f52e6e4f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 14/71] fix: files are not skipped for join points that look
 for an empty name

---
 internal/injector/aspect/may/context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/injector/aspect/may/context.go b/internal/injector/aspect/may/context.go
index 3693e36..d8a53b9 100644
--- a/internal/injector/aspect/may/context.go
+++ b/internal/injector/aspect/may/context.go
@@ -47,6 +47,11 @@ type FileContext struct {
 }
 
 func (ctx *FileContext) FileContains(content string) MatchType {
+	if content == "" {
+		// Every file does; but the suffix array has no matches for the empty string.
+		return Match
+	}
+
 	ctx.once.Do(func() {
 		ctx.index = suffixarray.New(ctx.FileContent)
 	})
-- 
2.43.0


From 2b80d8a32588e16267ae7ba1428fcf283fbdce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 15/71] fix: value-declaration only matches package-level
 declarations of the type

---
 internal/injector/aspect/join/declaration.go | 70 ++++++++++++++++++--
 1 file changed, 64 insertions(+), 6 deletions(-)

diff --git a/internal/injector/aspect/join/declaration.go b/internal/injector/aspect/join/declaration.go
index 4a0135b..95536af 100644
--- a/internal/injector/aspect/join/declaration.go
+++ b/internal/injector/aspect/join/declaration.go
@@ -8,6 +8,7 @@ package join
 import (
 	gocontext "context"
 	"fmt"
+	"go/types"
 	"regexp"
 
 	"github.com/DataDog/orchestrion/internal/fingerprint"
@@ -86,8 +87,10 @@ func ValueDeclaration(typeName typed.TypeName) *valueDeclaration {
 	return &valueDeclaration{typeName}
 }
 
-func (i *valueDeclaration) PackageMayMatch(ctx *may.PackageContext) may.MatchType {
-	return ctx.PackageImports(i.TypeName.ImportPath)
+func (*valueDeclaration) PackageMayMatch(_ *may.PackageContext) may.MatchType {
+	// The type may be left out of the declaration, in which case the package that
+	// declares it does not need to be imported.
+	return may.Unknown
 }
 
 func (*valueDeclaration) FileMayMatch(_ *may.FileContext) may.MatchType {
@@ -104,18 +107,73 @@ func (i *valueDeclaration) Matches(ctx context.AspectContext) bool {
 		return false
 	}
 
+	if grandParent := parent.Parent(); grandParent == nil {
+		return false
+	} else if _, isFile := grandParent.Node().(*dst.File); !isFile {
+		// The declaration is local to a function.
+		return false
+	}
+
 	spec, ok := ctx.Node().(*dst.ValueSpec)
 	if !ok {
 		return false
 	}
 
-	return spec.Type == nil || i.TypeName.Matches(spec.Type)
+	if spec.Type != nil {
+		return i.TypeName.Matches(spec.Type)
+	}
+
+	// The type is that of the initial value(s).
+	for _, value := range spec.Values {
+		if i.matchesType(ctx.ResolveType(value)) {
+			return true
+		}
+	}
+	return false
 }
 
-func (i *valueDeclaration) ImpliesImported() []string {
-	if path := i.TypeName.ImportPath; path != "" {
-		return []string{path}
+func (i *valueDeclaration) matchesType(t types.Type) bool {
+	if t == nil {
+		return false
 	}
+
+	if tuple, ok := t.(*types.Tuple); ok {
+		for idx := range tuple.Len() {
+			if i.matchesType(tuple.At(idx).Type()) {
+				return true
+			}
+		}
+		return false
+	}
+
+	t = types.Unalias(types.Default(t))
+	if i.TypeName.Pointer {
+		ptr, ok := t.(*types.Pointer)
+		if !ok {
+			return false
+		}
+		t = types.Unalias(ptr.Elem())
+	}
+
+	switch t := t.(type) {
+	case *types.Basic:
+		return i.TypeName.ImportPath == "" && i.TypeName.Name == t.Name()
+	case *types.Named:
+		path := ""
+		if pkg := t.Obj().Pkg(); pkg != nil {
+			path = pkg.Path()
+		}
+		return i.TypeName.ImportPath == path && i.TypeName.Name == t.Obj().Name()
+	case *types.Interface:
+		return !i.TypeName.Pointer && t.Empty() && i.TypeName.ImportPath == "" && i.TypeName.Name == "any"
+	default:
+		return false
+	}
+}
+
+func (*valueDeclaration) ImpliesImported() []string {
+	// The type may be left out of the declaration, in which case the package that
+	// declares it does not need to be imported.
 	return nil
 }
 
-- 
2.43.0


From cfda42e0517002df4384359ad7eecfab418f7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 16/71] fix: a type only implements an interface if its methods
 have the right signature

---
 internal/injector/typed/typecheck.go | 34 +++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/internal/injector/typed/typecheck.go b/internal/injector/typed/typecheck.go
index 1da5a34..b78e4d6 100644
--- a/internal/injector/typed/typecheck.go
+++ b/internal/injector/typed/typecheck.go
@@ -40,17 +40,39 @@ func typeImplements(t types.Type, iface *types.Interface) bool {
 		return true
 	}
 
-	// Fallback: check by method name only. types.Implements can fail when
-	// ResolveInterfaceTypeByName (importer.Default) and the type checker
-	// (importer.ForCompiler) produce different *types.Package objects for the
-	// same path, causing types.Identical to reject named types in method
-	// signatures (e.g., time.Time in context.Context.Deadline).
+	// Fallback: compare methods by name and by how their signature is written.
+	// types.Implements can fail when ResolveInterfaceTypeByName (importer.Default)
+	// and the type checker (importer.ForCompiler) produce different *types.Package
+	// objects for the same path, causing types.Identical to reject named types in
+	// method signatures (e.g., time.Time in context.Context.Deadline).
 	// types.LookupFieldOrMethod compares by package path, not pointer, so it
 	// correctly finds matching methods across importers.
 	for i := 0; i < iface.NumMethods(); i++ {
 		m := iface.Method(i)
 		obj, _, _ := types.LookupFieldOrMethod(t, false, m.Pkg(), m.Name())
-		if _, isFunc := obj.(*types.Func); !isFunc {
+		fn, isFunc := obj.(*types.Func)
+		if !isFunc || !sameSignature(fn.Signature(), m.Signature()) {
+			return false
+		}
+	}
+	return true
+}
+
+// sameSignature checks whether two signatures have the same parameter and result
+// types, where types are the same if they have the same (qualified) name.
+func sameSignature(a, b *types.Signature) bool {
+	return a.Variadic() == b.Variadic() &&
+		sameTypes(a.Params(), b.Params()) &&
+		sameTypes(a.Results(), b.Results())
+}
+
+func sameTypes(a, b *types.Tuple) bool {
+	if a.Len() != b.Len() {
+		return false
+	}
+	for i := range a.Len() {
+		ta, tb := a.At(i).Type(), b.At(i).Type()
+		if !types.Identical(ta, tb) && types.TypeString(types.Unalias(ta), nil) != types.TypeString(types.Unalias(tb), nil) {
 			return false
 		}
 	}
-- 
2.43.0


From b18322c999552541205272f12c9823b81656f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 17/71] fix: signature-contains only needs one of its types to
 be imported

---
 internal/injector/aspect/join/function.go | 29 +++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/internal/injector/aspect/join/function.go b/internal/injector/aspect/join/function.go
index 929232f..00a1eb3 100644
--- a/internal/injector/aspect/join/function.go
+++ b/internal/injector/aspect/join/function.go
@@ -10,6 +10,7 @@ import (
 	"errors"
 	"fmt"
 	"go/types"
+	"slices"
 	"strings"
 
 	"github.com/DataDog/orchestrion/internal/fingerprint"
@@ -230,6 +231,34 @@ func SignatureContains(args []typed.TypeName, ret []typed.TypeName) FunctionOpti
 	return &signatureContains{signature{Arguments: args, Results: ret}}
 }
 
+// packageMayMatch differs from [signature.packageMayMatch] because any of the
+// types being present is sufficient for a match.
+func (fo *signatureContains) packageMayMatch(ctx *may.PackageContext) may.MatchType {
+	sum := may.NeverMatch
+	for _, candidate := range fo.Arguments {
+		sum = sum.Or(ctx.PackageImports(candidate.ImportPath))
+	}
+	for _, candidate := range fo.Results {
+		sum = sum.Or(ctx.PackageImports(candidate.ImportPath))
+	}
+	return sum
+}
+
+// impliesImported only returns a package if all of the types are from it, because
+// any of them being present is sufficient for a match.
+func (fo *signatureContains) impliesImported() []string {
+	all := slices.Concat(fo.Arguments, fo.Results)
+	if len(all) == 0 || all[0].ImportPath == "" {
+		return nil
+	}
+	for _, candidate := range all[1:] {
+		if candidate.ImportPath != all[0].ImportPath {
+			return nil
+		}
+	}
+	return []string{all[0].ImportPath}
+}
+
 func (fo *signatureContains) Hash(h *fingerprint.Hasher) error {
 	return h.Named(
 		"signature-contains",
-- 
2.43.0


From de159ea07c869d818c0d57c83a4dce2fbc114aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 18/71] fix: one-of only implies the imports implied by all of
 its candidates

---
 internal/injector/aspect/join/one-of.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/injector/aspect/join/one-of.go b/internal/injector/aspect/join/one-of.go
index 20aafa2..e6ea8fe 100644
--- a/internal/injector/aspect/join/one-of.go
+++ b/internal/injector/aspect/join/one-of.go
@@ -25,7 +25,13 @@ func (o oneOf) ImpliesImported() []string {
 	// We can only assume a package is imported if all candidates imply it.
 	counts := make(map[string]uint)
 	for _, jp := range o {
+		seen := make(map[string]struct{})
 		for _, path := range jp.ImpliesImported() {
+			if _, dup := seen[path]; dup {
+				// Each candidate counts once, however many times it implies the package.
+				continue
+			}
+			seen[path] = struct{}{}
 			counts[path]++
 		}
 	}
-- 
2.43.0


From 7f160d6942d7d11f2fdeed24c89627b0176abefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 19/71] fix: argument-implements does not imply that the
 interface's package is imported

---
 internal/injector/aspect/join/function.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/injector/aspect/join/function.go b/internal/injector/aspect/join/function.go
index 00a1eb3..c4c0140 100644
--- a/internal/injector/aspect/join/function.go
+++ b/internal/injector/aspect/join/function.go
@@ -560,11 +560,9 @@ func ArgumentImplements(interfaceName string) FunctionOption {
 	return &argumentImplements{InterfaceName: interfaceName}
 }
 
-func (fo *argumentImplements) impliesImported() []string {
-	pkgPath, _ := typed.SplitPackageAndName(fo.InterfaceName)
-	if pkgPath != "" {
-		return []string{pkgPath}
-	}
+func (*argumentImplements) impliesImported() []string {
+	// A type can implement an interface without importing the interface's package
+	// due to Go's structural typing system.
 	return nil
 }
 
-- 
2.43.0


From d90ca9348548395f1947f4dca984a8a3c079cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 20/71] fix: decode the template of assign-value advice

Decoding into a pointer left it nil, so that applying the advice crashed.
---
 internal/injector/aspect/advice/assign.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/injector/aspect/advice/assign.go b/internal/injector/aspect/advice/assign.go
index 1f8a39d..ac23bb7 100644
--- a/internal/injector/aspect/advice/assign.go
+++ b/internal/injector/aspect/advice/assign.go
@@ -56,10 +56,10 @@ func (a *assignValue) Hash(h *fingerprint.Hasher) error {
 
 func init() {
 	unmarshalers["assign-value"] = func(ctx gocontext.Context, node ast.Node) (Advice, error) {
-		var template *code.Template
+		var template code.Template
 		if err := yaml.NodeToValueContext(ctx, node, &template); err != nil {
 			return nil, err
 		}
-		return AssignValue(template), nil
+		return AssignValue(&template), nil
 	}
 }
-- 
2.43.0


From 5ffc558a21d34a5298846ecca85b767b4611e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 21/71] fix: do not alter raw strings that look like line
 directives

---
 internal/injector/postprocess.go | 55 ++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/internal/injector/postprocess.go b/internal/injector/postprocess.go
index 24138b7..58c0f27 100644
--- a/internal/injector/postprocess.go
+++ b/internal/injector/postprocess.go
@@ -7,36 +7,49 @@ package injector
 
 import (
 	"bytes"
+	"go/scanner"
+	"go/token"
 )
 
 var lineDirectivePrefix = []byte("//line ")
 
 // postProcess modifies the provided source text to remove leading white space ahead of //line directives, as they are
-// otherwise ignored by the compiler (directives must begin at the first column of a line). It modifies the input slice
-// to avoid re-allocating (since the output is guaranteed to be the same size or smaller than the input).
+// otherwise ignored by the compiler (directives must begin at the first column of a line). Text that looks like such a
+// directive but is part of a raw string literal or of a block comment is left alone. It modifies the input slice to
+// avoid re-allocating (since the output is guaranteed to be the same size or smaller than the input).
 func postProcess(src []byte) []byte {
-	for i := 0; i < len(src); {
-		slice := src[i:]
-
-		trimmed := bytes.TrimLeft(slice, " \t")
-		trimmedLen := len(trimmed)
-		if trimmedLen != len(slice) && bytes.HasPrefix(trimmed, lineDirectivePrefix) {
-			// This line has a line directive with leading white space. We need to remove that whilte space, otherwise the
-			// directive will be ignored by the compiler. To do so we move the source data left by the padding amount, and
-			// then truncate the source slice to its new length.
-			newEnd := i + trimmedLen
-			copy(src[i:newEnd], trimmed)
-			src = src[:newEnd]
-		}
+	if !bytes.Contains(src, lineDirectivePrefix) {
+		return src
+	}
 
-		// Advance to the next line
-		lf := bytes.IndexByte(src[i:], '\n')
-		if lf < 0 {
-			// This was the last line: we can break out.
+	var (
+		fset = token.NewFileSet()
+		file = fset.AddFile("", fset.Base(), len(src))
+		scan scanner.Scanner
+		cuts [][2]int // The start and end offsets of the white space to remove
+	)
+	scan.Init(file, src, func(token.Position, string) { /* The compiler will report errors, if any */ }, scanner.ScanComments)
+	for {
+		pos, tok, lit := scan.Scan()
+		if tok == token.EOF {
 			break
 		}
-		i += lf + 1
+		if tok != token.COMMENT || !bytes.HasPrefix([]byte(lit), lineDirectivePrefix) {
+			continue
+		}
+		end := file.Offset(pos)
+		start := len(bytes.TrimRight(src[:end], " \t"))
+		if start < end && (start == 0 || src[start-1] == '\n') {
+			cuts = append(cuts, [2]int{start, end})
+		}
 	}
 
-	return src
+	// Now that the text has been scanned completely, move what is to be retained over the white space.
+	dest, last := 0, 0
+	for _, cut := range cuts {
+		dest += copy(src[dest:], src[last:cut[0]])
+		last = cut[1]
+	}
+	dest += copy(src[dest:], src[last:])
+	return src[:dest]
 }
-- 
2.43.0


From b1ecb8239c162c390d4f10a94b81aca670baed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 22/71] fix: keep names of imported packages from being
 shadowed when merging imports

---
 internal/injector/imports.go | 82 +++++++++++++++++++++++++++++++++++-
 1 file changed, 81 insertions(+), 1 deletion(-)

diff --git a/internal/injector/imports.go b/internal/injector/imports.go
index 00b1b22..2e2cebd 100644
--- a/internal/injector/imports.go
+++ b/internal/injector/imports.go
@@ -10,6 +10,7 @@ import (
 	"go/token"
 	"slices"
 	"strconv"
+	"strings"
 
 	"github.com/DataDog/orchestrion/internal/injector/aspect"
 	"github.com/DataDog/orchestrion/internal/injector/aspect/may"
@@ -39,10 +40,13 @@ func (i *Injector) packageFilterAspects(aspects []*aspect.Aspect) []*aspect.Aspe
 // resulting in invalid output source code.
 //
 // To do so, it modifies the AST file so that it only includes a single import per path, using the
-// first non-empty alias found.
+// first non-empty alias found that nothing else in the file goes by the name of. All references to
+// the package are then made through that alias, including where the others were used.
 func canonicalizeImports(ctx context.Context, file *dst.File) {
 	specsByPath := importSpecsByImportPath(ctx, file.Imports)
 
+	preferUnshadowedAliases(file, specsByPath)
+
 	retain := filterExtraneousImports(specsByPath)
 
 	file.Imports = file.Imports[:0] // Re-use the backing store, we'll keep <= what was there.
@@ -70,6 +74,82 @@ func importSpecsByImportPath(ctx context.Context, imports []*dst.ImportSpec) map
 	return byPath
 }
 
+// collectNames returns all names the file uses for something that is not part of an imported package,
+// any of which might shadow an import of the same name in parts of the file; and the names it uses from
+// each imported package.
+func collectNames(file *dst.File) (local map[string]struct{}, imported map[string]map[string]struct{}) {
+	local = make(map[string]struct{})
+	imported = make(map[string]map[string]struct{})
+
+	dst.Inspect(file, func(node dst.Node) bool {
+		switch node := node.(type) {
+		case *dst.ImportSpec:
+			return false
+		case *dst.Ident:
+			if node.Path == "" {
+				local[node.Name] = struct{}{}
+			} else if names, found := imported[node.Path]; found {
+				names[node.Name] = struct{}{}
+			} else {
+				imported[node.Path] = map[string]struct{}{node.Name: {}}
+			}
+		}
+		return true
+	})
+
+	return local, imported
+}
+
+// preferUnshadowedAliases re-orders the specs of paths that are imported several times so that those
+// with an alias that cannot be shadowed come first. If there is none, one of the specs is given such
+// an alias.
+func preferUnshadowedAliases(file *dst.File, byPath map[string][]*dst.ImportSpec) {
+	const (
+		unshadowed = iota
+		shadowed
+		blank
+		unnamed
+	)
+
+	localNames, importedNames := collectNames(file)
+	rank := func(path string, spec *dst.ImportSpec) int {
+		if spec.Name == nil {
+			return unnamed
+		}
+		switch spec.Name.Name {
+		case "_":
+			return blank
+		case ".":
+			for name := range importedNames[path] {
+				if _, found := localNames[name]; found {
+					return shadowed
+				}
+			}
+			return unshadowed
+		}
+		if _, found := localNames[spec.Name.Name]; found {
+			return shadowed
+		}
+		return unshadowed
+	}
+
+	for path, specs := range byPath {
+		if len(specs) < 2 {
+			continue
+		}
+
+		slices.SortStableFunc(specs, func(l *dst.ImportSpec, r *dst.ImportSpec) int { return rank(path, l) - rank(path, r) })
+
+		if rank(path, specs[0]) == shadowed {
+			alias := "__orchestrion_" + strings.ReplaceAll(specs[0].Name.Name, ".", "import")
+			for _, found := localNames[alias]; found; _, found = localNames[alias] {
+				alias += "_"
+			}
+			specs[0].Name.Name = alias
+		}
+	}
+}
+
 func filterExtraneousImports(byPath map[string][]*dst.ImportSpec) map[*dst.ImportSpec]struct{} {
 	result := make(map[*dst.ImportSpec]struct{}, len(byPath))
 
-- 
2.43.0


From 2a9be39c6cf0e000d747500e0a9412db36753e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:14 +0000
Subject: [PATCH 23/71] fix: match on the type of expressions that were
 replaced by other advice

---
 internal/injector/aspect/context/context.go | 16 ++++++++++++++++
 internal/injector/injector.go               |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/internal/injector/aspect/context/context.go b/internal/injector/aspect/context/context.go
index 39b1902..4651038 100644
--- a/internal/injector/aspect/context/context.go
+++ b/internal/injector/aspect/context/context.go
@@ -96,6 +96,7 @@ type (
 		testMain     bool
 		typeInfo     types.Info
 		nodeMap      map[dst.Node]ast.Node
+		replaced     map[dst.Node]dst.Node
 	}
 
 	SourceParser interface {
@@ -127,6 +128,10 @@ type ContextArgs struct {
 	TypeInfo types.Info
 	// NodeMap maps dst.Node to ast.Node.
 	NodeMap map[dst.Node]ast.Node
+	// Replaced maps nodes that replaced another one to the node they replaced. It
+	// is filled in by [context.ReplaceNode], and allows resolving the type of the
+	// original expression once it has been replaced.
+	Replaced map[dst.Node]dst.Node
 }
 
 // Context returns a new [*context] instance that represents the node at the
@@ -149,6 +154,7 @@ func (n *NodeChain) Context(ctx gocontext.Context, args ContextArgs) *context {
 		testMain:     args.TestMain,
 		typeInfo:     args.TypeInfo,
 		nodeMap:      args.NodeMap,
+		replaced:     args.Replaced,
 	}
 
 	return c
@@ -187,6 +193,7 @@ func (c *context) Child(node dst.Node, property string, index int) AdviceContext
 		testMain:     c.testMain,
 		typeInfo:     c.typeInfo,
 		nodeMap:      c.nodeMap,
+		replaced:     c.replaced,
 	}
 
 	return r
@@ -218,6 +225,7 @@ func (c *context) Parent() AspectContext {
 		testMain:   c.testMain,
 		typeInfo:   c.typeInfo,
 		nodeMap:    c.nodeMap,
+		replaced:   c.replaced,
 	}
 
 	return p
@@ -228,6 +236,9 @@ func (c *context) ReplaceNode(newNode dst.Node) {
 		panic("illegal attempt to replace a node without a cursor!")
 	}
 	c.cursor.Replace(newNode)
+	if c.replaced != nil && newNode != c.node {
+		c.replaced[newNode] = c.node
+	}
 	c.node = newNode
 }
 
@@ -271,6 +282,11 @@ func (c *context) EnsureMinGoLang(lang GoLangVersion) {
 // ResolveType resolves a dst.Expr to its corresponding types.Type within the
 // current context.
 func (c *context) ResolveType(expr dst.Expr) types.Type {
+	// If the expression replaced another one, it is the original one that has type information.
+	if original, ok := c.replaced[expr].(dst.Expr); ok {
+		return c.ResolveType(original)
+	}
+
 	// Convert dst.Expr to ast.Expr using the nodeMap.
 	astNode, ok := c.nodeMap[expr]
 	if !ok {
diff --git a/internal/injector/injector.go b/internal/injector/injector.go
index 7f9687d..2d157d1 100644
--- a/internal/injector/injector.go
+++ b/internal/injector/injector.go
@@ -217,6 +217,7 @@ func (i *Injector) applyAspects(ctx gocontext.Context, params parameters) (resul
 		chain      *context.NodeChain
 		modified   bool
 		references = typed.NewReferenceMap(params.Decorator.Ast.Nodes, params.TypeInfo.Scopes)
+		replaced   = make(map[dst.Node]dst.Node)
 		err        error
 	)
 
@@ -253,6 +254,7 @@ func (i *Injector) applyAspects(ctx gocontext.Context, params parameters) (resul
 			TestMain:     i.TestMain,
 			TypeInfo:     params.TypeInfo,
 			NodeMap:      params.Decorator.Ast.Nodes,
+			Replaced:     replaced,
 		})
 		defer ctx.Release()
 
-- 
2.43.0


From 9a2cc16130018026ab9f82621caa2af5239054f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:22 +0000
Subject: [PATCH 24/71] fix: do not separate a return statement from its
 results

---
 internal/injector/lineinfo/annotation.go | 26 ++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/injector/lineinfo/annotation.go b/internal/injector/lineinfo/annotation.go
index 234e6f5..ac9f71b 100644
--- a/internal/injector/lineinfo/annotation.go
+++ b/internal/injector/lineinfo/annotation.go
@@ -29,6 +29,9 @@ type (
 
 		lineInfo
 		stack []dst.Node
+
+		// noBreak is the position in the restored AST that must not be preceded by a line directive
+		noBreak token.Pos
 	}
 	lineInfo struct {
 		curFile string // The current un-adjusted file name
@@ -79,6 +82,14 @@ func (v *annotationVisitor) Visit(node ast.Node) ast.Visitor {
 		dstNode.Decorations().Start.Prepend(prevInfo.directive(true))
 	}
 
+	if node.Pos() == v.noBreak {
+		v.lineInfo = prevInfo
+		return v
+	}
+	if ret, isReturn := node.(*ast.ReturnStmt); isReturn && len(ret.Results) != 0 && !v.isSimpleReturn() {
+		v.noBreak = ret.Results[0].Pos()
+	}
+
 	var adjPosition token.Position
 	if orgNode := v.dec.Ast.Nodes[dstNode]; orgNode != nil {
 		adjPosition = v.dec.Fset.Position(orgNode.Pos())
@@ -130,6 +141,21 @@ func (v *annotationVisitor) Visit(node ast.Node) ast.Visitor {
 	return v
 }
 
+// isSimpleReturn determines whether it is safe to emit a line directive before the first result of the
+// [*dst.ReturnStmt] at the top of the stack. The new line after such a directive terminates the
+// statement when it is found right after the "return" keyword. The [go/printer] avoids this by moving
+// comments after the next token; but not if it had to insert additional new lines before the "return"
+// keyword, which happens (at least) when it follows a comment and an empty line.
+func (v *annotationVisitor) isSimpleReturn() bool {
+	depth := len(v.stack)
+	ret, isReturn := v.stack[depth-1].(*dst.ReturnStmt)
+	if !isReturn || len(ret.Results) != 1 || depth < 2 || len(ret.Decs.Start) != 0 {
+		return false
+	}
+	block, isBlock := v.stack[depth-2].(*dst.BlockStmt)
+	return isBlock && len(block.List) == 1 && len(block.Decs.Lbrace) == 0
+}
+
 func (l *lineInfo) directive(fileStart bool) string {
 	line := strconv.FormatInt(int64(l.adjLine), 10)
 
-- 
2.43.0


From 8d867ce6a7e0bb54bd929087291c4c9919867ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 25/71] fix: report code at its original line where formatting
 moved it

Line directives were placed according to the lines of the code before it is formatted. The directives
themselves cause functions written on one line to span several, after which everything up to the next
directive was reported one or more lines below where it is; and a directive the printer moves to the end
of a line has no effect, so the user's code following it was reported as generated. The positions are now
checked once the code has been formatted, and missing directives added.
---
 internal/injector/lineinfo/correct.go | 271 ++++++++++++++++++++++++++
 internal/injector/write.go            |   3 +-
 2 files changed, 273 insertions(+), 1 deletion(-)
 create mode 100644 internal/injector/lineinfo/correct.go

diff --git a/internal/injector/lineinfo/correct.go b/internal/injector/lineinfo/correct.go
new file mode 100644
index 0000000..86569e5
--- /dev/null
+++ b/internal/injector/lineinfo/correct.go
@@ -0,0 +1,271 @@
+// Unless explicitly stated otherwise all files in this repository are licensed
+// under the Apache License Version 2.0.
+// This product includes software developed at Datadog (https://www.datadoghq.com/).
+// Copyright 2023-present Datadog, Inc.
+
+package lineinfo
+
+import (
+	"bytes"
+	"go/ast"
+	"go/format"
+	"go/parser"
+	"go/scanner"
+	"go/token"
+	"reflect"
+	"regexp"
+
+	"github.com/dave/dst"
+	"github.com/dave/dst/decorator"
+)
+
+// CorrectLines adds `//line` directives to the formatted source code of a file that was annotated by [AnnotateMovedNodes]
+// and then restored, wherever nodes that come from the original file would still be reported at another line than their own. This is the case
+// where the formatting added or removed new lines, or moved an existing directive so that it has no effect. If everything is
+// in order, or if the original file was not formatted, the code is returned unchanged.
+func CorrectLines(
+	// The decorator that produced the *dst.File
+	dec *decorator.Decorator,
+	// The restorer that produced the *ast.File from the *dst.File
+	res *decorator.FileRestorer,
+	// The *ast.File that was formatted
+	file *ast.File,
+	// The formatted source code
+	src []byte,
+) []byte {
+	fset := token.NewFileSet()
+	parsed, err := parser.ParseFile(fset, res.Name, src, parser.ParseComments|parser.SkipObjectResolution)
+	if err != nil {
+		// The compiler will report about this.
+		return src
+	}
+
+	restored, formatted := checkpoints(file), checkpoints(parsed)
+	if len(restored) != len(formatted) {
+		return src
+	}
+
+	var (
+		buf        bytes.Buffer
+		written    int // How much of src has been written to buf already
+		original   = origins(dec, res, file)
+		starts     = lineStarts(src)
+		directives = directives(fset, parsed)
+		tokenFile  = fset.File(parsed.Package)
+		fix        token.Position // The position set by the last directive that was added, if still in effect
+		fixPos     token.Pos      // The position in src this directive applies to
+		fixLine    int            // The line of that position
+		lastLine   int            // The line of src on which the previous node starts, or ends if it may be a token of several lines
+	)
+	for i, node := range formatted {
+		if !isSame(node, restored[i]) {
+			return src
+		}
+
+		for len(directives) > 0 && directives[0] < node.Pos() {
+			directives = directives[1:]
+			fix = token.Position{}
+		}
+
+		actual, line := fset.Position(node.Pos()), fset.PositionFor(node.Pos(), false).Line
+		if fix.IsValid() {
+			actual.Filename, actual.Line = fix.Filename, fix.Line+line-fixLine
+		}
+		firstOfLine := line != lastLine
+		switch node.(type) {
+		case *ast.BasicLit, *ast.Ident:
+			lastLine = fset.PositionFor(node.End(), false).Line
+		default:
+			lastLine = line
+		}
+
+		expected, fromSource := original[restored[i]]
+		if !fromSource {
+			if _, isIdent := node.(*ast.Ident); !isIdent || node.Pos() == fixPos || !fix.IsValid() || fix.Filename == generated {
+				continue
+			}
+			// Do not let directives added here apply to synthetic code
+			expected = token.Position{Filename: generated, Line: 1}
+		} else if actual.Filename == expected.Filename && actual.Line == expected.Line {
+			continue
+		}
+
+		info := lineInfo{adjFile: expected.Filename, adjLine: expected.Line}
+		directive := info.directive(false)
+		offset, isStart := starts[line]
+		if isStart && firstOfLine {
+			directive += "\n"
+		} else {
+			offset = tokenFile.Offset(node.Pos())
+			directive = "/*" + directive[len("//"):] + "*/"
+		}
+		if offset < written {
+			return src
+		}
+		_, _ = buf.Write(src[written:offset])
+		_, _ = buf.WriteString(directive)
+		written = offset
+		fix, fixPos, fixLine = expected, node.Pos(), line
+	}
+
+	if buf.Len() == 0 {
+		return src
+	}
+	if original, isFile := dec.Ast.Nodes[res.Dst.Nodes[file]].(*ast.File); !isFile || !isFormatted(dec.Fset, original) {
+		return src
+	}
+	_, _ = buf.Write(src[written:])
+	return buf.Bytes()
+}
+
+// isFormatted determines whether the lines of a file are those of its canonical format. If they are not, they move all over
+// the place when formatted, so there would need to be directives everywhere to account for that.
+func isFormatted(fset *token.FileSet, file *ast.File) bool {
+	var buf bytes.Buffer
+	if err := format.Node(&buf, fset, file); err != nil {
+		return false
+	}
+	parsedSet := token.NewFileSet()
+	parsed, err := parser.ParseFile(parsedSet, "", buf.Bytes(), parser.ParseComments|parser.SkipObjectResolution)
+	if err != nil {
+		return false
+	}
+	original, formatted := checkpoints(file), checkpoints(parsed)
+	if len(original) != len(formatted) {
+		return false
+	}
+	for i, node := range original {
+		if fset.PositionFor(node.Pos(), false).Line != parsedSet.PositionFor(formatted[i].Pos(), false).Line {
+			return false
+		}
+	}
+	return true
+}
+
+// checkpoints lists the nodes of a file that are expected to be at the line they have in the original file in source order.
+// This leaves out import declarations, as these may be re-ordered when the file is formatted, and nodes which have no token
+// of their own at their position.
+func checkpoints(file *ast.File) []ast.Node {
+	var result []ast.Node
+	ast.Inspect(file, func(node ast.Node) bool {
+		switch node := node.(type) {
+		case nil, *ast.CommentGroup:
+			return false
+		case *ast.GenDecl:
+			if node.Tok == token.IMPORT {
+				return false
+			}
+		case *ast.File, *ast.FieldList, *ast.FuncType,
+			// Those may be removed when the file is formatted
+			*ast.EmptyStmt, *ast.ParenExpr,
+			// Those start with another node
+			*ast.AssignStmt, *ast.BinaryExpr, *ast.CallExpr, *ast.ExprStmt, *ast.Field, *ast.IncDecStmt, *ast.IndexExpr,
+			*ast.IndexListExpr, *ast.KeyValueExpr, *ast.LabeledStmt, *ast.SelectorExpr, *ast.SendStmt, *ast.SliceExpr,
+			*ast.TypeAssertExpr, *ast.TypeSpec, *ast.ValueSpec:
+			return true
+		}
+		result = append(result, node)
+		return true
+	})
+	return result
+}
+
+// isSame determines whether two nodes from [checkpoints] can be the same.
+func isSame(left ast.Node, right ast.Node) bool {
+	switch left := left.(type) {
+	case *ast.Ident:
+		right, ok := right.(*ast.Ident)
+		return ok && left.Name == right.Name
+	case *ast.BasicLit:
+		right, ok := right.(*ast.BasicLit)
+		return ok && left.Value == right.Value
+	default:
+		return reflect.TypeOf(left) == reflect.TypeOf(right)
+	}
+}
+
+// origins maps the nodes of a restored file to their position in the original file. Those which are not from the original
+// file are missing.
+func origins(dec *decorator.Decorator, res *decorator.FileRestorer, file *ast.File) map[ast.Node]token.Position {
+	result := make(map[ast.Node]token.Position)
+	record := func(node ast.Node, original ast.Node) {
+		if original == nil {
+			return
+		}
+		if pos := dec.Fset.Position(original.Pos()); pos.IsValid() && pos.Filename != "" && pos.Filename != generated {
+			result[node] = pos
+		}
+	}
+
+	ast.Inspect(file, func(node ast.Node) bool {
+		if node == nil {
+			return false
+		}
+		dstNode := res.Dst.Nodes[node]
+		if dstNode == nil {
+			return true
+		}
+		original := dec.Ast.Nodes[dstNode]
+		record(node, original)
+
+		// Qualified identifiers are represented by a single node
+		sel, isSelector := node.(*ast.SelectorExpr)
+		if _, isIdent := dstNode.(*dst.Ident); isSelector && isIdent {
+			record(sel.X, original)
+			record(sel.Sel, original)
+			if original, isSelector := original.(*ast.SelectorExpr); isSelector {
+				record(sel.Sel, original.Sel)
+			}
+			return false
+		}
+		return true
+	})
+
+	return result
+}
+
+// lineStarts maps each line on which the first token starts to the offset of the start of that line. Lines which start
+// inside of a token or comment are missing.
+func lineStarts(src []byte) map[int]int {
+	var (
+		fset   = token.NewFileSet()
+		file   = fset.AddFile("", fset.Base(), len(src))
+		scan   scanner.Scanner
+		result = make(map[int]int)
+		last   int // The last line that has (a part of) a token
+	)
+	scan.Init(file, src, nil, scanner.ScanComments)
+	for {
+		pos, tok, lit := scan.Scan()
+		if tok == token.EOF {
+			return result
+		}
+		if tok == token.SEMICOLON && lit == "\n" {
+			continue
+		}
+		line := file.PositionFor(pos, false).Line
+		if line != last {
+			result[line] = file.Offset(file.LineStart(line))
+		}
+		last = line + bytes.Count([]byte(lit), []byte{'\n'})
+	}
+}
+
+var lineDirective = regexp.MustCompile(`^(?://|/\*)line .*:[0-9]+(?:\*/)?$`)
+
+// directives lists the positions of the line directives in a file.
+func directives(fset *token.FileSet, file *ast.File) []token.Pos {
+	var result []token.Pos
+	for _, group := range file.Comments {
+		for _, comment := range group.List {
+			if !lineDirective.MatchString(comment.Text) {
+				continue
+			}
+			if comment.Text[1] == '/' && fset.PositionFor(comment.Pos(), false).Column != 1 {
+				continue
+			}
+			result = append(result, comment.Pos())
+		}
+	}
+	return result
+}
diff --git a/internal/injector/write.go b/internal/injector/write.go
index 79272d0..b5066bc 100644
--- a/internal/injector/write.go
+++ b/internal/injector/write.go
@@ -52,7 +52,8 @@ func (i *Injector) writeModifiedFile(ctx context.Context, decorator *decorator.D
 		}
 	}
 
-	if err := os.WriteFile(filename, postProcess(buf.Bytes()), 0o644); err != nil {
+	code := lineinfo.CorrectLines(decorator, restorer, astFile, postProcess(buf.Bytes()))
+	if err := os.WriteFile(filename, code, 0o644); err != nil {
 		return filename, fmt.Errorf("writing %q: %w", filename, err)
 	}
 
-- 
2.43.0


From 3793d57a26f5041118406f48e62d15ae22dcc052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 26/71] fix: report the right last result of grouped results,
 and refuse negative indices

---
 .../injector/aspect/advice/code/dot_function.go     | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/injector/aspect/advice/code/dot_function.go b/internal/injector/aspect/advice/code/dot_function.go
index 395976f..a082c05 100644
--- a/internal/injector/aspect/advice/code/dot_function.go
+++ b/internal/injector/aspect/advice/code/dot_function.go
@@ -182,15 +182,15 @@ func (s signature) LastResultThatImplements(name string) (string, error) {
 	if tn, err := typed.NewTypeName(name); err == nil {
 		currentIndex := 0
 		for _, field := range s.Results.List {
-			if tn.Matches(field.Type) {
-				lastMatchIndex = currentIndex // Update last found index
-			}
 			// Increment index by the number of names in the field (or 1 if unnamed).
 			count := len(field.Names)
 			if count == 0 {
 				count = 1
 			}
 			currentIndex += count
+			if tn.Matches(field.Type) {
+				lastMatchIndex = currentIndex - 1 // Update last found index
+			}
 		}
 	}
 	// If we found a match via TypeName, return it.
@@ -206,16 +206,16 @@ func (s signature) LastResultThatImplements(name string) (string, error) {
 	}
 
 	// Fallback: Check using ExprImplements, iterating backward.
-	// Need field indices map again for this path.
+	// Need field indices map again for this path (the index of the last item declared by each field).
 	fieldIndices := make(map[*dst.Field]int)
 	index := 0
 	for _, field := range s.Results.List {
-		fieldIndices[field] = index
 		count := len(field.Names)
 		if count == 0 {
 			count = 1
 		}
 		index += count
+		fieldIndices[field] = index - 1
 	}
 
 	for i := len(s.Results.List) - 1; i >= 0; i-- {
@@ -234,6 +234,9 @@ func fieldAt(fields *dst.FieldList, index int, use string) (string, error) {
 	if fields == nil {
 		return "", fmt.Errorf("index out of bounds: %d (empty set)", index)
 	}
+	if index < 0 {
+		return "", fmt.Errorf("index out of bounds: %d", index)
+	}
 
 	idx := 0
 	anonymous := false
-- 
2.43.0


From 4bceb133ed4d1a92a165966f46d6d6b4c719b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 27/71] fix: directive arguments are separated by any white
 space, and a lone quote is no quoted value

---
 internal/injector/aspect/advice/code/dot_directive.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/injector/aspect/advice/code/dot_directive.go b/internal/injector/aspect/advice/code/dot_directive.go
index fb8ec10..f32c5d7 100644
--- a/internal/injector/aspect/advice/code/dot_directive.go
+++ b/internal/injector/aspect/advice/code/dot_directive.go
@@ -22,7 +22,7 @@ var spaces = regexp.MustCompile(`\s+`)
 
 // DirectiveArgs returns arguments provided to the named directive. A directive is a single-line
 // comment with the directive immediately following the leading `//`, without any spacing in
-// between; followed by optional arguments formatted as `key:value`, separated by spaces.
+// between; followed by optional arguments formatted as `key:value`, separated by white space.
 //
 // Values might contain spaces, and in that case they need to be quoted either using single or double quotes as
 // `key:"value with spaces"` or `key:'value with spaces'`.
@@ -63,8 +63,8 @@ func parseDirectiveArgs(prefix string, comment string) ([]DirectiveArgument, boo
 	for scanner.Scan() {
 		part := scanner.Text()
 		if key, value, ok := strings.Cut(part, ":"); ok {
-			if (strings.HasPrefix(value, `"`) && strings.HasSuffix(value, `"`)) ||
-				(strings.HasPrefix(value, `'`) && strings.HasSuffix(value, `'`)) {
+			if len(value) >= 2 && ((strings.HasPrefix(value, `"`) && strings.HasSuffix(value, `"`)) ||
+				(strings.HasPrefix(value, `'`) && strings.HasSuffix(value, `'`))) {
 				value = value[1 : len(value)-1]
 			}
 			res = append(res, DirectiveArgument{Key: key, Value: value})
@@ -91,7 +91,7 @@ func splitArgs(data []byte, atEOF bool) (advance int, token []byte, err error) {
 			if !doubleQuote {
 				singleQuote = !singleQuote
 			}
-		case ' ':
+		case ' ', '\t', '\n', '\f', '\r':
 			if !doubleQuote && !singleQuote {
 				if start < i {
 					return i + 1, data[start:i], nil
-- 
2.43.0


From a11f6598058bdcfd33cb12d541a95ff0db854775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 28/71] fix: modified files are not written over each other
 when line directives give them the same name

---
 internal/injector/injector.go | 33 ++++++++++++++++++++++++++++++---
 internal/injector/write.go    |  6 +++---
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/internal/injector/injector.go b/internal/injector/injector.go
index 2d157d1..fc56631 100644
--- a/internal/injector/injector.go
+++ b/internal/injector/injector.go
@@ -15,6 +15,7 @@ import (
 	"go/importer"
 	"go/token"
 	"go/types"
+	"path/filepath"
 	"sync"
 
 	"github.com/DataDog/dd-trace-go/v2/ddtrace/tracer"
@@ -130,6 +131,7 @@ func (i *Injector) InjectFiles(ctx gocontext.Context, files []string, aspects []
 		resultMu     sync.Mutex
 	)
 
+	outputNames := outputFileNames(fset, parsedFiles)
 	wg.Add(len(parsedFiles))
 	for _, parsedFile := range parsedFiles {
 		go func(parsedFile parse.File) {
@@ -144,7 +146,7 @@ func (i *Injector) InjectFiles(ctx gocontext.Context, files []string, aspects []
 				return
 			}
 
-			res, err := i.injectFile(ctx, decorator, dstFile, typeInfo, parsedFile.Aspects)
+			res, err := i.injectFile(ctx, decorator, dstFile, typeInfo, parsedFile.Aspects, outputNames[parsedFile.Name])
 			if err != nil {
 				errsMu.Lock()
 				defer errsMu.Unlock()
@@ -167,6 +169,31 @@ func (i *Injector) InjectFiles(ctx gocontext.Context, files []string, aspects []
 	return result, resultGoLang, errors.Join(errs...)
 }
 
+// outputFileNames determines the name the modified version of each file is to be named after. This is the name the file
+// is mapped to by its leading //line directive (if any), unless it is not the name of a Go file or it would conflict with
+// another file of the package.
+func outputFileNames(fset *token.FileSet, files []parse.File) map[string]string {
+	mapped := make(map[string]string, len(files))
+	users := make(map[string]map[string]struct{}, len(files))
+	for _, file := range files {
+		mapped[file.Name] = fset.File(file.AstFile.FileStart).Name()
+		for _, name := range []string{file.Name, mapped[file.Name]} {
+			base := filepath.Base(name)
+			if users[base] == nil {
+				users[base] = make(map[string]struct{}, 1)
+			}
+			users[base][file.Name] = struct{}{}
+		}
+	}
+
+	for name, mappedName := range mapped {
+		if base := filepath.Base(mappedName); filepath.Ext(base) != ".go" || len(users[base]) > 1 {
+			mapped[name] = name
+		}
+	}
+	return mapped
+}
+
 func (i *Injector) validate() error {
 	var err error
 	if i.ImportPath == "" {
@@ -184,7 +211,7 @@ func (i *Injector) validate() error {
 
 // injectFile injects code in the specified file. This method can be called concurrently by multiple goroutines,
 // as is guarded by a sync.Mutex.
-func (i *Injector) injectFile(ctx gocontext.Context, decorator *decorator.Decorator, file *dst.File, typeInfo types.Info, aspects []*aspect.Aspect) (result, error) {
+func (i *Injector) injectFile(ctx gocontext.Context, decorator *decorator.Decorator, file *dst.File, typeInfo types.Info, aspects []*aspect.Aspect, outputName string) (result, error) {
 	span, ctx := tracer.StartSpanFromContext(ctx, "Injector.injectFile",
 		tracer.ResourceName(decorator.Filenames[file]),
 	)
@@ -203,7 +230,7 @@ func (i *Injector) injectFile(ctx gocontext.Context, decorator *decorator.Decora
 	if result.Modified {
 		span.SetTag("modified", true)
 
-		result.Filename, err = i.writeModifiedFile(ctx, decorator, file)
+		result.Filename, err = i.writeModifiedFile(ctx, decorator, file, outputName)
 		if err != nil {
 			return result, err
 		}
diff --git a/internal/injector/write.go b/internal/injector/write.go
index b5066bc..68cd7c4 100644
--- a/internal/injector/write.go
+++ b/internal/injector/write.go
@@ -20,8 +20,8 @@ import (
 )
 
 // writeModifiedFile writes the modified file to disk after having restored it to Go source code,
-// and returns the path to the modified file.
-func (i *Injector) writeModifiedFile(ctx context.Context, decorator *decorator.Decorator, file *dst.File) (string, error) {
+// and returns the path to the modified file, which is named after outputName.
+func (i *Injector) writeModifiedFile(ctx context.Context, decorator *decorator.Decorator, file *dst.File, outputName string) (string, error) {
 	log := zerolog.Ctx(ctx)
 
 	filename := decorator.Filenames[file]
@@ -45,7 +45,7 @@ func (i *Injector) writeModifiedFile(ctx context.Context, decorator *decorator.D
 	}
 
 	if i.ModifiedFile != nil {
-		filename = i.ModifiedFile(filename)
+		filename = i.ModifiedFile(outputName)
 		dir := filepath.Dir(filename)
 		if err := os.MkdirAll(dir, 0o755); err != nil {
 			return filename, fmt.Errorf("mkdir %q: %w", dir, err)
-- 
2.43.0


From 49e60c5d310ac510807036996eb87df62afce83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 29/71] fix: a malformed line directive on the first line of a
 file does not crash

---
 internal/injector/parse/mappedfilename.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/injector/parse/mappedfilename.go b/internal/injector/parse/mappedfilename.go
index 29e9af5..030f3ab 100644
--- a/internal/injector/parse/mappedfilename.go
+++ b/internal/injector/parse/mappedfilename.go
@@ -7,6 +7,7 @@ package parse
 
 import (
 	"bytes"
+	"errors"
 	"io"
 )
 
@@ -25,8 +26,8 @@ func ConsumeLineDirective(r io.Reader) (string, error) {
 	}
 
 	var buf [7]byte
-	n, err := r.Read(buf[:])
-	if err != nil {
+	n, err := io.ReadFull(r, buf[:])
+	if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
 		return "", err
 	}
 	if string(buf[:n]) != "//line " {
@@ -37,11 +38,11 @@ func ConsumeLineDirective(r io.Reader) (string, error) {
 	buffer := make([]byte, 0, 128)
 	var wasCR, done bool
 	for !done {
-		if n, err := r.Read(buf[:1]); err != nil {
-			return "", err
-		} else if n == 0 {
+		if _, err := io.ReadFull(r, buf[:1]); errors.Is(err, io.EOF) {
 			// Reached EOF
 			break
+		} else if err != nil {
+			return "", err
 		}
 		switch c := buf[0]; c {
 		case '\n':
@@ -84,14 +85,14 @@ func cutPositionSuffix(buf []byte) ([]byte, int, bool) {
 	// First, consume the integer at the end of the buffer.
 	pos := 0
 	pow := 1
-	for buf[cutOff] >= '0' && buf[cutOff] <= '9' {
+	for cutOff >= 0 && buf[cutOff] >= '0' && buf[cutOff] <= '9' {
 		pos += pow * int(buf[cutOff]-'0')
 		pow *= 10
 		cutOff--
 	}
 
 	// If there's no ":" before the integer, or there was no digit at all, it was not a position...
-	if buf[cutOff] != ':' || pow == 1 {
+	if cutOff < 0 || buf[cutOff] != ':' || pow == 1 {
 		return buf, 0, false
 	}
 
-- 
2.43.0


From 3ad429e61888c40de0ef96fcbd427b9898d4cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 30/71] fix: type names match types that are written between
 parentheses

---
 internal/injector/typed/typename.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/injector/typed/typename.go b/internal/injector/typed/typename.go
index 5566d74..e319ec8 100644
--- a/internal/injector/typed/typename.go
+++ b/internal/injector/typed/typename.go
@@ -84,6 +84,9 @@ func (n TypeName) Matches(node dst.Expr) bool {
 		}
 		return !n.Pointer && n.ImportPath == path && n.Name == node.Sel.Name
 
+	case *dst.ParenExpr:
+		return n.Matches(node.X)
+
 	case *dst.StarExpr:
 		return n.Pointer && (&TypeName{ImportPath: n.ImportPath, Name: n.Name}).Matches(node.X)
 
-- 
2.43.0


From 36bf701294d7da9b56353f09fc58391cc5e90940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 31/71] fix: no automatic pinning from sub-directories of a
 pinned module

---
 internal/pin/auto.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/pin/auto.go b/internal/pin/auto.go
index c98ea13..33b49c3 100644
--- a/internal/pin/auto.go
+++ b/internal/pin/auto.go
@@ -11,9 +11,11 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"strings"
 
 	"github.com/DataDog/orchestrion/internal/ensure"
+	"github.com/DataDog/orchestrion/internal/goenv"
 	"github.com/DataDog/orchestrion/internal/injector/config"
 	"github.com/DataDog/orchestrion/internal/version"
 	"github.com/charmbracelet/lipgloss"
@@ -54,7 +56,12 @@ func AutoPinOrchestrion(ctx context.Context, stdout io.Writer, stderr io.Writer)
 		log.Trace().Err(err).Msg("Failed to detect required version of orchestrion from go.mod")
 	} else {
 		log.Trace().Msg("Skipping ensure.RequiredVersion because this is a development build")
-		_, err := os.Stat(config.FilenameOrchestrionToolGo)
+		toolFile := config.FilenameOrchestrionToolGo
+		if goMod, err := goenv.GOMOD(""); err == nil {
+			// The file is next to the `go.mod` file, which may be in a parent of the current directory.
+			toolFile = filepath.Join(filepath.Dir(goMod), toolFile)
+		}
+		_, err := os.Stat(toolFile)
 		if err == nil {
 			log.Trace().Msg("Found " + config.FilenameOrchestrionToolGo + " file, no automatic pinning required")
 			return nil
-- 
2.43.0


From 0d18edbd04930ddd9700f18033780632cc64c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 32/71] fix: weave test variants of a package like the package
 itself

---
 internal/toolexec/aspect/oncompile.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/toolexec/aspect/oncompile.go b/internal/toolexec/aspect/oncompile.go
index 7d66382..4273b55 100644
--- a/internal/toolexec/aspect/oncompile.go
+++ b/internal/toolexec/aspect/oncompile.go
@@ -70,8 +70,12 @@ func (w Weaver) OnCompile(ctx context.Context, cmd *proxy.CompileCommand) (resEr
 		return fmt.Errorf("loading injector configuration: %w", resErr)
 	}
 
+	// Test variants of a package are identified as "import/path [import/path.test]"; they are subject to the same rules
+	// as the package itself.
+	importPath, _, _ := strings.Cut(w.ImportPath, " ")
+
 	aspects := cfg.Aspects()
-	specialBehavior, isSpecial := FindBehaviorOverride(w.ImportPath)
+	specialBehavior, isSpecial := FindBehaviorOverride(importPath)
 	if isSpecial {
 		switch specialBehavior {
 		case NeverWeave:
@@ -96,7 +100,7 @@ func (w Weaver) OnCompile(ctx context.Context, cmd *proxy.CompileCommand) (resEr
 	injector := injector.Injector{
 		RootConfig: map[string]string{"httpmode": "wrap"},
 		Lookup:     imports.Lookup,
-		ImportPath: w.ImportPath,
+		ImportPath: importPath,
 		TestMain:   cmd.TestMain() && strings.HasSuffix(w.ImportPath, ".test"),
 		ImportMap:  imports.PackageFile,
 		GoVersion:  cmd.Flags.Lang,
-- 
2.43.0


From c79f99e7a2c3f2e854d069c56e5692fd2a662628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 33/71] fix: the build identity accounts for the configuration
 in sub-directories of the module too

---
 internal/jobserver/buildid/version.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/jobserver/buildid/version.go b/internal/jobserver/buildid/version.go
index 0305073..c43977b 100644
--- a/internal/jobserver/buildid/version.go
+++ b/internal/jobserver/buildid/version.go
@@ -14,6 +14,7 @@ import (
 	"hash"
 	"io"
 	"os"
+	"path/filepath"
 	"runtime/debug"
 	"slices"
 	"sort"
@@ -21,6 +22,7 @@ import (
 	"sync"
 
 	"github.com/DataDog/orchestrion/internal/fingerprint"
+	"github.com/DataDog/orchestrion/internal/goenv"
 	"github.com/DataDog/orchestrion/internal/goflags"
 	"github.com/DataDog/orchestrion/internal/injector/aspect"
 	"github.com/DataDog/orchestrion/internal/injector/config"
@@ -51,7 +53,12 @@ func (s *service) versionSuffix(ctx context.Context, _ VersionSuffixRequest) (Ve
 	}
 	s.stats.RecordMiss()
 
-	cfg, err := config.NewLoader(s.packageLoader, ".", false).Load(ctx)
+	// The configuration is the one of the module, also when the build was started from one of its sub-directories.
+	configDir := "."
+	if goMod, err := goenv.GOMOD(configDir); err == nil {
+		configDir = filepath.Dir(goMod)
+	}
+	cfg, err := config.NewLoader(s.packageLoader, configDir, false).Load(ctx)
 	if err != nil {
 		return "", fmt.Errorf("loading injector configuration: %w", err)
 	}
-- 
2.43.0


From 3300b72d51fd01e3a93346314b664e839678c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 34/71] fix: packages the main package needs at link time only
 are linked

---
 internal/toolexec/aspect/oncompile-main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/toolexec/aspect/oncompile-main.go b/internal/toolexec/aspect/oncompile-main.go
index a5fb5b0..69fe1c9 100644
--- a/internal/toolexec/aspect/oncompile-main.go
+++ b/internal/toolexec/aspect/oncompile-main.go
@@ -79,11 +79,18 @@ func (w Weaver) OnCompileMain(ctx context.Context, cmd *proxy.CompileCommand) (e
 	if err != nil {
 		return fmt.Errorf("reading %s closure from %s: %w", linkdeps.Filename, cmd.Flags.ImportCfg, err)
 	}
-	if len(stack) == 0 {
+	// Link-time dependencies of the main package itself have already been added to the importcfg file when it was woven;
+	// the linker only sees them if they are imported, however.
+	newDeps := make([]string, 0, len(stack))
+	for _, path := range cmd.LinkDeps.Dependencies() {
+		if _, found := reg.PackageFile[path]; found && cmd.LinkDeps.Kind(path) == linkdeps.RelocationDependency {
+			newDeps = append(newDeps, path)
+		}
+	}
+	if len(stack) == 0 && len(newDeps) == 0 {
 		return nil
 	}
 
-	newDeps := make([]string, 0, len(stack))
 	pending := make(map[string]pendingLinkDep, len(stack))
 	processed := make(map[string]pkgs.ResolvedArchive)
 	paths := make([]string, 0, len(stack))
-- 
2.43.0


From 8f7406a508fd3b16f31f85ee325b6e00bfcda981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 35/71] fix: filtering a report does not alter the report

---
 internal/report/report.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/report/report.go b/internal/report/report.go
index 0599719..333adf7 100644
--- a/internal/report/report.go
+++ b/internal/report/report.go
@@ -168,7 +168,7 @@ func (r Report) WithRegexFilter(regex string) (Report, error) {
 	return Report{
 		root: r.root,
 		fs:   r.fs,
-		files: slices.DeleteFunc(r.files, func(file ModifiedFile) bool {
+		files: slices.DeleteFunc(slices.Clone(r.files), func(file ModifiedFile) bool {
 			return !cmpRegex.MatchString(file.modified)
 		}),
 	}, nil
@@ -179,7 +179,7 @@ func (r Report) WithSpecialCasesFilter() Report {
 	return Report{
 		root: r.root,
 		fs:   r.fs,
-		files: slices.DeleteFunc(r.files, func(file ModifiedFile) bool {
+		files: slices.DeleteFunc(slices.Clone(r.files), func(file ModifiedFile) bool {
 			pkgPath := file.ImportPath()
 			if pkgPath == "synthetic" {
 				return true
-- 
2.43.0


From efca49fec09b4c24482923f58ed2689a8c8a847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 36/71] fix: package-name and import-path join points have
 different fingerprints

---
 internal/injector/aspect/join/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/injector/aspect/join/package.go b/internal/injector/aspect/join/package.go
index 0f13fc1..9aeb8f4 100644
--- a/internal/injector/aspect/join/package.go
+++ b/internal/injector/aspect/join/package.go
@@ -76,7 +76,7 @@ func (p packageName) Matches(ctx context.AspectContext) bool {
 }
 
 func (p packageName) Hash(h *fingerprint.Hasher) error {
-	return h.Named("import-path", fingerprint.String(p))
+	return h.Named("package-name", fingerprint.String(p))
 }
 
 type packageFilter struct {
-- 
2.43.0


From 5a0ac10fe1d875977c3c9b2db786f32d6bfca95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 37/71] fix: accept all valid import paths and identifiers, and
 interface{}, in type names

---
 internal/injector/typed/typename.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/injector/typed/typename.go b/internal/injector/typed/typename.go
index e319ec8..20067ae 100644
--- a/internal/injector/typed/typename.go
+++ b/internal/injector/typed/typename.go
@@ -41,11 +41,16 @@ type TypeName struct {
 
 // FIXME: this does not support all the type syntax, like: "chan Event"
 // It primarily handles identifiers, qualified identifiers, and pointers to those.
-var typeNameRe = regexp.MustCompile(`\A(\*)?\s*(?:([A-Za-z0-9_.-]+(?:/[A-Za-z0-9_.-]+)*)\.)?([A-Za-z_][A-Za-z0-9_]*)\z`)
+var typeNameRe = regexp.MustCompile(`\A(\*)?\s*(?:([A-Za-z0-9_.~+-]+(?:/[A-Za-z0-9_.~+-]+)*)\.)?([\p{L}_][\p{L}_\p{Nd}]*)\z`)
 
 // NewTypeName parses a string representation of a type name into a TypeName struct.
 // It returns an error if the syntax is invalid according to its limited regular expression.
 func NewTypeName(n string) (tn TypeName, err error) {
+	if n == "interface{}" {
+		// The empty interface has no name, but is also known as "any".
+		n = "any"
+	}
+
 	matches := typeNameRe.FindStringSubmatch(n)
 	if matches == nil {
 		err = fmt.Errorf("invalid TypeName syntax: %q", n)
-- 
2.43.0


From a449312ea0c6a1159b84117f460081d7c67610ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 38/71] fix: fingerprints keep neighbouring texts apart
 whatever their content

---
 internal/fingerprint/fingerprint.go | 14 ++++++++++++--
 internal/fingerprint/types.go       |  3 +--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/fingerprint/fingerprint.go b/internal/fingerprint/fingerprint.go
index 8389f8c..1e60038 100644
--- a/internal/fingerprint/fingerprint.go
+++ b/internal/fingerprint/fingerprint.go
@@ -11,6 +11,7 @@ import (
 	"hash"
 	"io"
 	"strconv"
+	"strings"
 	"sync"
 )
 
@@ -57,7 +58,7 @@ func (h *Hasher) Named(name string, vals ...Hashable) error {
 		return err
 	}
 
-	if _, err := io.WriteString(h.hash, name); err != nil {
+	if err := h.writeText(name); err != nil {
 		return err
 	}
 
@@ -87,7 +88,16 @@ func (h *Hasher) Named(name string, vals ...Hashable) error {
 		return err
 	}
 
-	_, err := io.WriteString(h.hash, name)
+	return h.writeText(name)
+}
+
+// escape makes texts free of the bytes that [Hasher.Named] uses as beacons, so
+// that these can never be mistaken for one another.
+var escape = strings.NewReplacer("\x01", "\x10A", "\x02", "\x10B", "\x03", "\x10C", "\x10", "\x10P")
+
+// writeText hashes the provided text.
+func (h *Hasher) writeText(text string) error {
+	_, err := escape.WriteString(h.hash, text)
 	return err
 }
 
diff --git a/internal/fingerprint/types.go b/internal/fingerprint/types.go
index f1bc8b0..de0cde1 100644
--- a/internal/fingerprint/types.go
+++ b/internal/fingerprint/types.go
@@ -41,8 +41,7 @@ func (l List[T]) Hash(h *Hasher) error {
 type String string
 
 func (s String) Hash(h *Hasher) error {
-	_, err := io.WriteString(h.hash, string(s))
-	return err
+	return h.writeText(string(s))
 }
 
 func Cast[E any, T ~[]E, H Hashable](slice T, fn func(E) H) List[H] {
-- 
2.43.0


From 98ac86b8072936015344b174b585fcb58a8593a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 39/71] fix: null items in lists of a configuration document
 are errors

---
 internal/injector/aspect/advice/call.go   | 5 +++++
 internal/injector/aspect/join/function.go | 3 +++
 internal/injector/config/config-yml.go    | 6 ++++++
 3 files changed, 14 insertions(+)

diff --git a/internal/injector/aspect/advice/call.go b/internal/injector/aspect/advice/call.go
index 0693494..da1a533 100644
--- a/internal/injector/aspect/advice/call.go
+++ b/internal/injector/aspect/advice/call.go
@@ -172,6 +172,11 @@ func init() {
 		if err != nil {
 			return nil, err
 		}
+		for i, val := range args.Values {
+			if val == nil {
+				return nil, fmt.Errorf("append-args: value %d is null", i)
+			}
+		}
 
 		return AppendArgs(tn, args.Values...), nil
 	}
diff --git a/internal/injector/aspect/join/function.go b/internal/injector/aspect/join/function.go
index c4c0140..1d216d4 100644
--- a/internal/injector/aspect/join/function.go
+++ b/internal/injector/aspect/join/function.go
@@ -603,6 +603,9 @@ func init() {
 		}
 		opts := make([]FunctionOption, len(unmarshalOpts))
 		for i, opt := range unmarshalOpts {
+			if opt.FunctionOption == nil {
+				return nil, fmt.Errorf("function: option %d is null", i)
+			}
 			opts[i] = opt.FunctionOption
 		}
 		return Function(opts...), nil
diff --git a/internal/injector/config/config-yml.go b/internal/injector/config/config-yml.go
index 80fe569..c50ea69 100644
--- a/internal/injector/config/config-yml.go
+++ b/internal/injector/config/config-yml.go
@@ -198,6 +198,12 @@ func (l *Loader) parseYMLFile(ctx context.Context, filename string) (*ymlFile, e
 		return nil, fmt.Errorf("yaml.Decode %q: %w", filename, err)
 	}
 
+	for idx, aspect := range yml.Aspects {
+		if aspect == nil {
+			return nil, fmt.Errorf("yaml.Decode %q: aspects[%d] is null", filename, idx)
+		}
+	}
+
 	return &yml, nil
 }
 
-- 
2.43.0


From 4f28cda5aaeaedcd250affdde782dc294ab8217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 40/71] fix: wrapping what cannot be replaced is an error, not
 a crash

---
 internal/injector/aspect/advice/wrap.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/injector/aspect/advice/wrap.go b/internal/injector/aspect/advice/wrap.go
index 6f57dff..d736115 100644
--- a/internal/injector/aspect/advice/wrap.go
+++ b/internal/injector/aspect/advice/wrap.go
@@ -44,7 +44,9 @@ func (a *wrapExpression) Apply(ctx context.AdviceContext) (bool, error) {
 	}
 
 	if kve == nil {
-		ctx.ReplaceNode(repl)
+		if err := replaceNode(ctx, repl); err != nil {
+			return false, fmt.Errorf("wrap-expression: %w", err)
+		}
 	} else {
 		kve.Value = repl
 	}
@@ -54,6 +56,19 @@ func (a *wrapExpression) Apply(ctx context.AdviceContext) (bool, error) {
 	return true, nil
 }
 
+// replaceNode replaces the context's node. It returns an error if the parent
+// node does not accept the new node in this place (for example because it must
+// be an identifier there).
+func replaceNode(ctx context.AdviceContext, repl dst.Expr) (err error) {
+	defer func() {
+		if recover() != nil {
+			err = fmt.Errorf("%T cannot be replaced by %T here", ctx.Node(), repl)
+		}
+	}()
+	ctx.ReplaceNode(repl)
+	return nil
+}
+
 func (a *wrapExpression) Hash(h *fingerprint.Hasher) error {
 	return h.Named("wrap-expression", a.Template)
 }
-- 
2.43.0


From 1f11e1137ce6d39d0f53ef8c527e151f40315211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 41/71] fix: injected declarations are not woven again

---
 internal/injector/injector.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/injector/injector.go b/internal/injector/injector.go
index fc56631..3d49f0e 100644
--- a/internal/injector/injector.go
+++ b/internal/injector/injector.go
@@ -245,13 +245,24 @@ func (i *Injector) applyAspects(ctx gocontext.Context, params parameters) (resul
 		modified   bool
 		references = typed.NewReferenceMap(params.Decorator.Ast.Nodes, params.TypeInfo.Scopes)
 		replaced   = make(map[dst.Node]dst.Node)
+		original   = make(map[dst.Decl]struct{}, len(params.File.Decls))
 		err        error
 	)
+	for _, decl := range params.File.Decls {
+		original[decl] = struct{}{}
+	}
 
 	pre := func(csor *dstutil.Cursor) bool {
 		if err != nil || csor.Node() == nil || isIgnored(ctx, csor.Node()) {
 			return false
 		}
+		if decl, ok := csor.Node().(dst.Decl); ok && csor.Parent() == params.File {
+			if _, found := original[decl]; !found {
+				// Injected code is not woven, as it could otherwise match the aspect that injects it over
+				// and over again.
+				return false
+			}
+		}
 
 		root := chain == nil
 		chain = chain.Child(csor)
-- 
2.43.0


From dd38e7bc0b303b6320990c8a5c5266e27dee511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 42/71] fix: validation of configuration documents rejects
 unknown properties

The validator in use does not implement unevaluatedProperties.
---
 internal/injector/config/schema.json | 88 +++++++++++++++-------------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/internal/injector/config/schema.json b/internal/injector/config/schema.json
index 8043526..90bd76b 100644
--- a/internal/injector/config/schema.json
+++ b/internal/injector/config/schema.json
@@ -307,7 +307,8 @@
       "items": {
         "description": "A single, uniquely identified aspect.",
         "type": "object",
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
+        "properties": { "id": true, "join-point": true, "advice": true, "tracer-internal": true },
         "allOf": [
           {
             "required": ["id"],
@@ -386,7 +387,7 @@
     "join-point": {
       "all-of": {
         "required": ["all-of"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "all-of": {
             "title": "Intersection of multiple join points",
@@ -407,7 +408,7 @@
       },
       "configuration": {
         "required": ["configuration"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "configuration": {
             "deprecated": true,
@@ -428,7 +429,7 @@
       },
       "declaration-of": {
         "required": ["declaration-of"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "declaration-of": {
             "markdownDescription": "The `declaration-of` join point matches top-level declarations. It matches only `ValueSpec` and `FuncDecl` nodes.",
@@ -439,7 +440,7 @@
       },
       "directive": {
         "required": ["directive"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "directive": {
             "title": "Declarative join points",
@@ -452,7 +453,7 @@
       },
       "function-body": {
         "required": ["function-body"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "function-body": {
             "title": "Targets a function's body",
@@ -473,7 +474,7 @@
       },
       "function": {
         "required": ["function"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "function": {
             "title": "Select function and method signatures",
@@ -499,7 +500,7 @@
             "oneOf": [
               {
                 "required": ["name"],
-                "unevaluatedProperties": false,
+                "additionalProperties": false,
                 "properties": {
                   "name": {
                     "description": "Matches only functions with the provided name. A blank name matches only function literal expressions.",
@@ -512,7 +513,7 @@
               },
               {
                 "required": ["receiver"],
-                "unevaluatedProperties": false,
+                "additionalProperties": false,
                 "properties": {
                   "receiver": {
                     "description": "Matches only method declarations for the provided receiver type. A boolean matches any function based on receiver presence: `true` selects methods with any receiver type, while `false` selects non-method functions and function literal expressions.",
@@ -525,7 +526,7 @@
               },
               {
                 "required": ["signature"],
-                "unevaluatedProperties": false,
+                "additionalProperties": false,
                 "properties": {
                   "signature": {
                     "description": "Matches only functions with the specified signature.",
@@ -548,7 +549,7 @@
               },
               {
                 "required": ["signature-contains"],
-                "unevaluatedProperties": false,
+                "additionalProperties": false,
                 "properties": {
                   "signature-contains": {
                     "description": "Matches functions based on their arguments and return value types in any order and does not require all arguments or return values to be present.",
@@ -571,7 +572,7 @@
               },
               {
                 "required": ["result-implements"],
-                "unevaluatedProperties": false,
+                "additionalProperties": false,
                 "properties": {
                   "result-implements": {
                     "description": "Matches functions where at least one return value implements the specified interface.",
@@ -581,7 +582,7 @@
               },
               {
                 "required": ["final-result-implements"],
-                "unevaluatedProperties": false,
+                "additionalProperties": false,
                 "properties": {
                   "final-result-implements": {
                     "description": "Matches functions where specifically the final return value implements the specified interface.",
@@ -591,7 +592,7 @@
               },
               {
                 "required": ["argument-implements"],
-                "unevaluatedProperties": false,
+                "additionalProperties": false,
                 "properties": {
                   "argument-implements": {
                     "description": "Matches functions where at least one argument implements the specified interface.",
@@ -605,7 +606,7 @@
       },
       "function-call": {
         "required": ["function-call"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "function-call": {
             "title": "Target function calls",
@@ -620,7 +621,7 @@
       },
       "import-path": {
         "required": ["import-path"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "import-path": {
             "title": "Limit to certain packages",
@@ -636,7 +637,7 @@
       },
       "method-call": {
         "required": ["method-call"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "method-call": {
             "title": "Target method calls by receiver type",
@@ -680,7 +681,7 @@
       },
       "not": {
         "required": ["not"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "not": {
             "title": "Negation of a join point",
@@ -695,7 +696,7 @@
       },
       "one-of": {
         "required": ["one-of"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "one-of": {
             "title": "Union of join points",
@@ -717,7 +718,7 @@
       },
       "package-name": {
         "required": ["package-name"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "package-name": {
             "title": "Limit to certain package names",
@@ -729,7 +730,7 @@
       },
       "package-filter": {
         "required": ["package-filter"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "package-filter": {
             "title": "Filter packages using glob patterns",
@@ -786,7 +787,7 @@
       },
       "struct-definition": {
         "required": ["struct-definition"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "struct-definition": {
             "title": "Match struct type definitions",
@@ -798,7 +799,7 @@
       },
       "struct-literal": {
         "required": ["struct-literal"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "struct-literal": {
             "title": "Match struct literal expressions",
@@ -856,7 +857,7 @@
       },
       "test-main": {
         "required": ["test-main"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "test-main": {
             "title": "Synthetic test main package",
@@ -867,7 +868,7 @@
       },
       "value-declaration": {
         "required": ["value-declaration"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "value-declaration": {
             "title": "Package-level `var` and `const` declarations",
@@ -900,13 +901,14 @@
     "advice": {
       "assign-value": {
         "required": ["assign-value"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "assign-value": {
             "title": "Change the initial value of a `var` or `const`",
             "markdownDescription": "The `assign-value` advice changes the initial value of a package-level `var` or `const` declaration matched by `value-declaration`.\n\nIf the value is susceptible to match a `const`, the template must produce only compile-time constant values.",
-            "$ref": "#/$defs/code-template",
-            "unevaluatedProperties": false
+            "additionalProperties": false,
+            "properties": { "imports": true, "template": true, "lang": true },
+            "allOf": [{ "$ref": "#/$defs/code-template" }]
           }
         },
         "examples": [
@@ -926,12 +928,13 @@
       },
       "prepend-statements": {
         "required": ["prepend-statements"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "prepend-statements": {
             "title": "Add new logic before a node",
             "markdownDescription": "The `prepend-statements` advice inserts new statements rendered by the provided code template before the matched AST node. This is often used to add logic in the preamble of function implementations, and the `defer` keyword can be used to also introduce epilogue logic.\n\n**Execution Order**: Multiple prepend-statements are executed in reverse order (last prepended executes first). Use `namespace` and `order` properties to control the relative execution order across different aspects.",
-            "unevaluatedProperties": false,
+            "additionalProperties": false,
+            "properties": { "imports": true, "template": true, "lang": true, "order": true, "namespace": true },
             "allOf": [
               { "$ref": "#/$defs/code-template" },
               {
@@ -970,7 +973,7 @@
       },
       "append-args": {
         "required": ["append-args"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "append-args": {
             "title": "Append new arguments to a variadic call",
@@ -987,8 +990,9 @@
                 "description": "The list of argument values to add, in order.",
                 "type": "array",
                 "items": {
-                  "$ref": "#/$defs/code-template",
-                  "unevaluatedProperties": false
+                  "additionalProperties": false,
+                  "properties": { "imports": true, "template": true, "lang": true },
+                  "allOf": [{ "$ref": "#/$defs/code-template" }]
                 },
                 "minItems": 1
               }
@@ -1021,7 +1025,7 @@
       },
       "replace-function": {
         "required": ["replace-function"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "replace-function": {
             "title": "Drop-in replace a called function",
@@ -1037,7 +1041,7 @@
       },
       "add-blank-import": {
         "required": ["add-blank-import"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "add-blank-import": {
             "title": "Import packages for side-effects",
@@ -1050,12 +1054,13 @@
       },
       "inject-declarations": {
         "required": ["inject-declarations"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "inject-declarations": {
             "title": "Introduce new declarations in the package",
             "markdownDescription": "The `inject-declarations` advice merges declarations produced by a code template into the matched node's compilation unit.\n\nThis is often used to introduce new type definitions or declare foreign functions linked via `//go:linkname` to avoid creating dependency cycles.",
-            "unevaluatedProperties": false,
+            "additionalProperties": false,
+            "properties": { "imports": true, "template": true, "lang": true, "links": true },
             "allOf": [
               { "$ref": "#/$defs/code-template" },
               {
@@ -1102,7 +1107,7 @@
       },
       "add-struct-field": {
         "required": ["add-struct-field"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "add-struct-field": {
             "title": "Add new fields to struct types",
@@ -1139,13 +1144,14 @@
       },
       "wrap-expression": {
         "required": ["wrap-expression"],
-        "unevaluatedProperties": false,
+        "additionalProperties": false,
         "properties": {
           "wrap-expression": {
             "title": "Add behavior around an expression",
             "markdownDescription": "The `wrap-expression` advice replaces the matched node with the one produced by the provided code template. Care must be taken to not change the type of the expression, as this could result in breaking surrounding code.\n\nIt is commonly used to wrap values in immediately-invoked function expressions (IIFE).",
-            "$ref": "#/$defs/code-template",
-            "unevaluatedProperties": false
+            "additionalProperties": false,
+            "properties": { "imports": true, "template": true, "lang": true },
+            "allOf": [{ "$ref": "#/$defs/code-template" }]
           }
         },
         "examples": [
-- 
2.43.0


From 22f85b778c5df7442fbb91be1225d692fc1fe8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 43/71] fix: the built-in aspects are part of a configuration
 once

---
 internal/injector/config/config-go.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/injector/config/config-go.go b/internal/injector/config/config-go.go
index 537771f..8f234a2 100644
--- a/internal/injector/config/config-go.go
+++ b/internal/injector/config/config-go.go
@@ -31,6 +31,10 @@ func (l *Loader) loadGoPackage(ctx context.Context, pkg *packages.Package) (_ *c
 	// Special-case the `github.com/DataDog/orchestrion` package, we need not
 	// parse this one, and should always use the built-in object.
 	if pkg.PkgPath == builtIn.pkgPath {
+		if !l.markLoaded(builtIn.pkgPath) {
+			// Already loaded, ignoring...
+			return nil, nil
+		}
 		return &builtIn, nil
 	}
 
-- 
2.43.0


From 07d41a9216a0255ec36e18840a538e2ea4dac8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 44/71] fix: tool files without imports do not load the package
 in the current directory

---
 internal/injector/config/config-go.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/injector/config/config-go.go b/internal/injector/config/config-go.go
index 8f234a2..93d1cb0 100644
--- a/internal/injector/config/config-go.go
+++ b/internal/injector/config/config-go.go
@@ -117,6 +117,11 @@ func (l *Loader) loadGoFile(ctx context.Context, filename string) (_ []Config, e
 		imports = append(imports, path)
 	}
 
+	if len(imports) == 0 {
+		// Loading no pattern at all would load the package in the current directory.
+		return nil, nil
+	}
+
 	pkgs, err := l.packages(ctx, imports...)
 	if err != nil {
 		return nil, fmt.Errorf("imports from %q (%q): %w", filename, imports, err)
-- 
2.43.0


From 3d6afeb1f6bc0124feb4d61f49add7ed497418bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 45/71] fix: failures to load packages are not mistaken for
 missing configuration files

---
 internal/injector/config/config-go.go  | 2 +-
 internal/injector/config/config-yml.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/injector/config/config-go.go b/internal/injector/config/config-go.go
index 93d1cb0..0ecb69c 100644
--- a/internal/injector/config/config-go.go
+++ b/internal/injector/config/config-go.go
@@ -124,7 +124,7 @@ func (l *Loader) loadGoFile(ctx context.Context, filename string) (_ []Config, e
 
 	pkgs, err := l.packages(ctx, imports...)
 	if err != nil {
-		return nil, fmt.Errorf("imports from %q (%q): %w", filename, imports, err)
+		return nil, fmt.Errorf("imports from %q (%q): %w", filename, imports, maskErrNotExist(err))
 	}
 
 	cfgs := make([]Config, 0, len(pkgs))
diff --git a/internal/injector/config/config-yml.go b/internal/injector/config/config-yml.go
index c50ea69..465edbb 100644
--- a/internal/injector/config/config-yml.go
+++ b/internal/injector/config/config-yml.go
@@ -58,7 +58,7 @@ func (l *Loader) loadYMLFile(ctx context.Context, dir string, name string) (_ *c
 		} else if stat.IsDir() {
 			pkgs, err := l.packages(ctx, extFilename)
 			if err != nil {
-				return nil, fmt.Errorf("extends %q: %w", ext, err)
+				return nil, fmt.Errorf("extends %q: %w", ext, maskErrNotExist(err))
 			}
 			if len(pkgs) != 1 {
 				// This is not supposed to happen if `err == nil`.
-- 
2.43.0


From b42d233482a6d0166fcad8caaaf32f8aad7415cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 46/71] fix: pinning keeps the mode of the tool file

---
 internal/pin/pin.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index fb127f3..5eb9ec4 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -365,6 +365,15 @@ func writeUpdated(filename string, file *dst.File) error {
 		return errors.Join(fmt.Errorf("writing to temporary file %q: %w", tmpFilename, err), tmpFile.Close())
 	}
 
+	// Temporary files are private, but the file is to be shared like any other source file.
+	mode := os.FileMode(0o644)
+	if stat, err := os.Stat(filename); err == nil {
+		mode = stat.Mode().Perm()
+	}
+	if err := tmpFile.Chmod(mode); err != nil {
+		return errors.Join(fmt.Errorf("changing the mode of %q: %w", tmpFilename, err), tmpFile.Close())
+	}
+
 	if err := tmpFile.Close(); err != nil {
 		return fmt.Errorf("closing %q: %w", tmpFilename, err)
 	}
-- 
2.43.0


From 9bf32dfb4eed9cc05e562359d37d060cae6bfd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 47/71] fix: pinning removes the useless imports it reports
 from the tool file

---
 internal/pin/pin.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index 5eb9ec4..3b71d7f 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -147,6 +147,11 @@ func PinOrchestrion(ctx context.Context, opts Options) error {
 		return fmt.Errorf("pruning imports from %q: %w", toolFile, err)
 	}
 
+	// Imports may have been pruned, or marked as providing integrations.
+	if err := writeUpdated(toolFile, dstFile); err != nil {
+		return fmt.Errorf("updating %q: %w", toolFile, err)
+	}
+
 	if pruned {
 		// Run "go mod tidy" to ensure the `go.mod` file is up-to-date with detected dependencies.
 		if err := gomod.Run(ctx, "tidy", goMod, nil); err != nil {
-- 
2.43.0


From 7352853a4460fba9d2b32d4ce96b59ff63d8234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 48/71] fix: pinning keeps comments below imports and imports
 without parentheses intact

---
 internal/pin/importset.go | 34 ++++++++++++++++++++++++++++++++++
 internal/pin/pin.go       |  9 ++++-----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/internal/pin/importset.go b/internal/pin/importset.go
index 8d46742..655c31f 100644
--- a/internal/pin/importset.go
+++ b/internal/pin/importset.go
@@ -41,6 +41,19 @@ func importSetFrom(file *dst.File) *importSet {
 		imported[path] = spec
 	}
 
+	for _, decl := range file.Decls {
+		decl, ok := decl.(*dst.GenDecl)
+		if !ok || decl.Tok != token.IMPORT || decl.Lparen {
+			continue
+		}
+		// Comments next to imports without parentheses are attached to the declaration.
+		for _, spec := range decl.Specs {
+			comment, rest := splitTrailing(decl.Decs.End)
+			spec.Decorations().End = append(comment, spec.Decorations().End...)
+			decl.Decs.End = rest
+		}
+	}
+
 	imports := firstImportIn(file)
 	if imports == nil {
 		imports = newImportDeclIn(file)
@@ -64,6 +77,7 @@ func (s *importSet) Add(path string) (*dst.ImportSpec, bool) {
 
 	s.file.Imports = append(s.file.Imports, newSpec)
 	s.imports.Specs = append(s.imports.Specs, newSpec)
+	s.imports.Lparen, s.imports.Rparen = true, true
 	s.imported[path] = newSpec
 
 	return newSpec, true
@@ -147,6 +161,26 @@ func (s *importSet) Remove(toRemove string) bool {
 
 // firstImportIn returns the first import declaration found in the provided
 // [*dst.File]. If no import declaration is present, returns `nil`.
+// setTrailing replaces the comment next to an import, if there is one. No comment
+// is added if it is blank.
+func setTrailing(spec *dst.ImportSpec, comment string) {
+	_, rest := splitTrailing(spec.Decs.End)
+	if comment != "" {
+		rest = append(dst.Decorations{comment}, rest...)
+	}
+	spec.Decs.End = rest
+}
+
+// splitTrailing splits the comments on the same line from these on the following lines.
+func splitTrailing(decs dst.Decorations) (sameLine dst.Decorations, rest dst.Decorations) {
+	for i, dec := range decs {
+		if dec == "\n" {
+			return slices.Clone(decs[:i]), slices.Clone(decs[i:])
+		}
+	}
+	return slices.Clone(decs), nil
+}
+
 func firstImportIn(file *dst.File) *dst.GenDecl {
 	if len(file.Decls) == 0 {
 		return nil
diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index 3b71d7f..53dffbf 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -222,11 +222,11 @@ func updateToolFile(file *dst.File) (*importSet, error) {
 		)
 		spec.Decs.After = dst.EmptyLine
 	}
-	spec.Decs.End.Replace("// integration")
+	setTrailing(spec, "// integration")
 
 	spec, _ = importSet.Add(integrations.DatadogTracerV2All)
 	spec.Decs.Before = dst.EmptyLine
-	spec.Decs.End.Replace("// integration")
+	setTrailing(spec, "// integration")
 
 	// We auto-imported from dd-trace-go, so we can remove the legacy `/instrument` import if present.
 	importSet.Remove(orchestrionImportPath + "/instrument")
@@ -322,8 +322,7 @@ func pruneImports(ctx context.Context, importSet *importSet, opts Options) (bool
 			pruned = pruneImport(importSet, pkg.PkgPath, "there is no "+config.FilenameOrchestrionYML+" nor "+config.FilenameOrchestrionToolGo+" file in this package", opts) || pruned
 			continue
 		}
-		decl := importSet.Find(pkg.PkgPath)
-		decl.Decs.End.Replace("// integration")
+		setTrailing(importSet.Find(pkg.PkgPath), "// integration")
 	}
 
 	return pruned, nil
@@ -341,7 +340,7 @@ func pruneImport(importSet *importSet, path string, reason string, opts Options)
 		}
 
 		_, _ = fmt.Fprintf(opts.Writer, "unnecessary import of %q: %v\n", path, reason)
-		spec.Decs.End.Clear() // Remove the // integration comment.
+		setTrailing(spec, "") // Remove the // integration comment.
 
 		return false
 	}
-- 
2.43.0


From c7823bfd85a11039cf0e5e2fb5b7ca11df49af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 49/71] fix: pinning again leaves the layout of imports alone

---
 internal/pin/pin.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index 53dffbf..6b11960 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -224,8 +224,10 @@ func updateToolFile(file *dst.File) (*importSet, error) {
 	}
 	setTrailing(spec, "// integration")
 
-	spec, _ = importSet.Add(integrations.DatadogTracerV2All)
-	spec.Decs.Before = dst.EmptyLine
+	spec, isNew = importSet.Add(integrations.DatadogTracerV2All)
+	if isNew {
+		spec.Decs.Before = dst.EmptyLine
+	}
 	setTrailing(spec, "// integration")
 
 	// We auto-imported from dd-trace-go, so we can remove the legacy `/instrument` import if present.
-- 
2.43.0


From 26118379dd5c60d81654b42d688ab96432c2d54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 50/71] fix: pinning does not override the module the tracer is
 substituted with

---
 internal/ensure/requiredintegrations.go |  3 ++-
 internal/gomod/gomod.go                 | 27 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/internal/ensure/requiredintegrations.go b/internal/ensure/requiredintegrations.go
index 101d8d2..2535cc7 100644
--- a/internal/ensure/requiredintegrations.go
+++ b/internal/ensure/requiredintegrations.go
@@ -62,7 +62,8 @@ func RequiredIntegrations(ctx context.Context, goMod string) ([]gomod.Edit, erro
 	if ver.found {
 		edits = append(edits, gomod.Require{Path: integrations.DatadogTracerV2All, Version: targetVersion})
 	}
-	if ver.found && semver.Compare(ver.current, ver.shipped) != 0 {
+	// A substitute chosen by the user (e.g, a local copy of the module) remains in place.
+	if ver.found && semver.Compare(ver.current, ver.shipped) != 0 && !curMod.Substitutes(integrations.DatadogTracerV2) {
 		edits = append(edits, gomod.Replace{OldPath: integrations.DatadogTracerV2, NewPath: integrations.DatadogTracerV2, NewVersion: ver.current})
 	}
 	return edits, nil
diff --git a/internal/gomod/gomod.go b/internal/gomod/gomod.go
index 248f5d7..3774954 100644
--- a/internal/gomod/gomod.go
+++ b/internal/gomod/gomod.go
@@ -27,6 +27,8 @@ type (
 		Toolchain Toolchain
 		// Require is a list of all `require` directives' contents.
 		Require []Require
+		// Replace is a list of all `replace` directives' contents.
+		Replace []Replace
 	}
 
 	// Edit represents an edition that can be made to a `go.mod` file via `go mod edit`.
@@ -85,6 +87,31 @@ func (m *File) Requires(path string) (string, bool) {
 	return "", false
 }
 
+// Substitutes returns true if the `go.mod` file contains a replace directive
+// that substitutes the designated module with another one (be it another module
+// or a directory), as opposed to merely selecting a version of it.
+func (m *File) Substitutes(path string) bool {
+	for _, r := range m.Replace {
+		if r.OldPath == path && r.NewPath != path {
+			return true
+		}
+	}
+	return false
+}
+
+// UnmarshalJSON decodes the representation `go mod edit -json` uses for
+// `replace` directives.
+func (r *Replace) UnmarshalJSON(data []byte) error {
+	var raw struct {
+		Old, New struct{ Path, Version string }
+	}
+	if err := json.Unmarshal(data, &raw); err != nil {
+		return err
+	}
+	*r = Replace{OldPath: raw.Old.Path, OldVersion: raw.Old.Version, NewPath: raw.New.Path, NewVersion: raw.New.Version}
+	return nil
+}
+
 // commandEnv returns the environment for go subcommands that operate on an
 // explicit `-modfile`, starting from base (typically [os.Environ]).
 //
-- 
2.43.0


From 6929be6aad80bdd3688452abc5d77549dac62810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 51/71] fix: pinning tidies up the module before looking for
 imports to prune

---
 internal/ensure/requiredintegrations.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/ensure/requiredintegrations.go b/internal/ensure/requiredintegrations.go
index 2535cc7..77568e1 100644
--- a/internal/ensure/requiredintegrations.go
+++ b/internal/ensure/requiredintegrations.go
@@ -58,10 +58,8 @@ func RequiredIntegrations(ctx context.Context, goMod string) ([]gomod.Edit, erro
 		}
 	}
 
-	var edits []gomod.Edit
-	if ver.found {
-		edits = append(edits, gomod.Require{Path: integrations.DatadogTracerV2All, Version: targetVersion})
-	}
+	// This also makes sure the module gets tidied up after anything was installed or upgraded.
+	edits := []gomod.Edit{gomod.Require{Path: integrations.DatadogTracerV2All, Version: targetVersion}}
 	// A substitute chosen by the user (e.g, a local copy of the module) remains in place.
 	if ver.found && semver.Compare(ver.current, ver.shipped) != 0 && !curMod.Substitutes(integrations.DatadogTracerV2) {
 		edits = append(edits, gomod.Replace{OldPath: integrations.DatadogTracerV2, NewPath: integrations.DatadogTracerV2, NewVersion: ver.current})
-- 
2.43.0


From 1151f4402b9ef2680e6ad54e5e70ce5bf823d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 52/71] fix: pinning never downgrades the integrations the
 module requires

---
 internal/ensure/requiredintegrations.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ensure/requiredintegrations.go b/internal/ensure/requiredintegrations.go
index 77568e1..2db2e1c 100644
--- a/internal/ensure/requiredintegrations.go
+++ b/internal/ensure/requiredintegrations.go
@@ -46,6 +46,10 @@ func RequiredIntegrations(ctx context.Context, goMod string) ([]gomod.Edit, erro
 		return nil, fmt.Errorf("fetching versions for %s: %w", integrations.DatadogTracerV2, err)
 	}
 	shouldUpgrade, targetVersion := resolveIntegrationVersion(ver)
+	if current, found := curMod.Requires(integrations.DatadogTracerV2All); found {
+		// Never downgrade; the tracer may be required only indirectly, and hence not be listed.
+		targetVersion = maxVersion(targetVersion, current)
+	}
 	if shouldUpgrade {
 		log.Info().
 			Str("target", targetVersion).
-- 
2.43.0


From 7d4271a1c11ae1ac46cbd7b253d29d8dd0c6eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 53/71] fix: pinning finds and keeps the go:generate directive
 below imports

---
 internal/pin/importset.go | 9 +++++++--
 internal/pin/pin.go       | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/pin/importset.go b/internal/pin/importset.go
index 655c31f..d10ee39 100644
--- a/internal/pin/importset.go
+++ b/internal/pin/importset.go
@@ -125,6 +125,11 @@ func (s *importSet) Remove(toRemove string) bool {
 				if path != toRemove {
 					return false
 				}
+				if decl, ok := csor.Parent().(*dst.GenDecl); ok {
+					// Comments and directives on the following lines remain.
+					_, rest := splitTrailing(node.Decs.End)
+					decl.Decs.End.Prepend(rest...)
+				}
 				csor.Delete()
 				removed = true
 				return false
@@ -159,8 +164,6 @@ func (s *importSet) Remove(toRemove string) bool {
 	return removed
 }
 
-// firstImportIn returns the first import declaration found in the provided
-// [*dst.File]. If no import declaration is present, returns `nil`.
 // setTrailing replaces the comment next to an import, if there is one. No comment
 // is added if it is blank.
 func setTrailing(spec *dst.ImportSpec, comment string) {
@@ -181,6 +184,8 @@ func splitTrailing(decs dst.Decorations) (sameLine dst.Decorations, rest dst.Dec
 	return slices.Clone(decs), nil
 }
 
+// firstImportIn returns the first import declaration found in the provided
+// [*dst.File]. If no import declaration is present, returns `nil`.
 func firstImportIn(file *dst.File) *dst.GenDecl {
 	if len(file.Decls) == 0 {
 		return nil
diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index 6b11960..6c1aa4e 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -259,7 +259,7 @@ func updateGoGenerateDirective(opts Options, file *dst.File) {
 	dst.Walk(
 		dstNodeVisitor(func(node dst.Node) bool {
 			switch node := node.(type) {
-			case *dst.File, dst.Decl:
+			case *dst.File, dst.Decl, dst.Spec:
 				decs := node.Decorations()
 				for i, dec := range decs.Start {
 					if dec != prefix && !strings.HasPrefix(dec, prefix+" ") {
-- 
2.43.0


From 39d1db083cc345c82869ca61c4d95eb545e5d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 54/71] fix: pinning tells comments on the line of an import
 from those below

---
 internal/pin/importset.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/pin/importset.go b/internal/pin/importset.go
index d10ee39..ebe3aa7 100644
--- a/internal/pin/importset.go
+++ b/internal/pin/importset.go
@@ -11,6 +11,7 @@ import (
 	"go/token"
 	"slices"
 	"strconv"
+	"strings"
 
 	"github.com/dave/dst"
 	"github.com/dave/dst/dstutil"
@@ -169,6 +170,9 @@ func (s *importSet) Remove(toRemove string) bool {
 func setTrailing(spec *dst.ImportSpec, comment string) {
 	_, rest := splitTrailing(spec.Decs.End)
 	if comment != "" {
+		if len(rest) > 1 && rest[0] == "\n" {
+			rest = rest[1:] // The comment ends the line already
+		}
 		rest = append(dst.Decorations{comment}, rest...)
 	}
 	spec.Decs.End = rest
@@ -180,6 +184,10 @@ func splitTrailing(decs dst.Decorations) (sameLine dst.Decorations, rest dst.Dec
 		if dec == "\n" {
 			return slices.Clone(decs[:i]), slices.Clone(decs[i:])
 		}
+		if strings.HasPrefix(dec, "//") && i+1 < len(decs) {
+			// Whatever follows starts on a new line.
+			return slices.Clone(decs[:i+1]), append(dst.Decorations{"\n"}, decs[i+1:]...)
+		}
 	}
 	return slices.Clone(decs), nil
 }
-- 
2.43.0


From d08740ab7e4c726f59bb5f4e2a44a9c282637a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 55/71] fix: paths of the tool containing quotes or backslashes
 reach the go command intact

---
 internal/goflags/quoted/quoted.go  | 31 ++++++++++++++++++++++++
 internal/goproxy/proxy.go          | 38 ++++++++++--------------------
 internal/jobserver/pkgs/resolve.go |  7 +++++-
 3 files changed, 49 insertions(+), 27 deletions(-)

diff --git a/internal/goflags/quoted/quoted.go b/internal/goflags/quoted/quoted.go
index b71d574..34a8a0b 100644
--- a/internal/goflags/quoted/quoted.go
+++ b/internal/goflags/quoted/quoted.go
@@ -14,6 +14,7 @@ package quoted
 
 import (
 	"fmt"
+	"strings"
 )
 
 func isSpaceByte(c byte) bool {
@@ -61,3 +62,33 @@ func Split(s string) ([]string, error) {
 	}
 	return f, nil
 }
+
+// Join joins args into a string that [Split] splits into args again, quoting
+// these that need to be. It returns an error if an element contains both
+// single and double quotes, as there is no way to represent that.
+func Join(args ...string) (string, error) {
+	var buf strings.Builder
+	for i, arg := range args {
+		if i > 0 {
+			_ = buf.WriteByte(' ')
+		}
+		var (
+			hasSpace  = arg == "" || strings.ContainsAny(arg, " \t\n\r")
+			hasSingle = strings.ContainsRune(arg, '\'')
+			hasDouble = strings.ContainsRune(arg, '"')
+			quote     string
+		)
+		switch {
+		case !hasSpace && !hasSingle && !hasDouble:
+			// No need to quote...
+		case !hasDouble:
+			quote = `"`
+		case !hasSingle:
+			quote = "'"
+		default:
+			return "", fmt.Errorf("argument %q contains both single and double quotes", arg)
+		}
+		_, _ = buf.WriteString(quote + arg + quote)
+	}
+	return buf.String(), nil
+}
diff --git a/internal/goproxy/proxy.go b/internal/goproxy/proxy.go
index 062ffbd..32c1967 100644
--- a/internal/goproxy/proxy.go
+++ b/internal/goproxy/proxy.go
@@ -10,11 +10,11 @@ import (
 	"fmt"
 	"os"
 	"os/exec"
-	"strings"
 
 	"github.com/DataDog/dd-trace-go/v2/ddtrace/tracer"
 	"github.com/DataDog/orchestrion/internal/goenv"
 	"github.com/DataDog/orchestrion/internal/goflags"
+	"github.com/DataDog/orchestrion/internal/goflags/quoted"
 	"github.com/DataDog/orchestrion/internal/jobserver"
 	"github.com/DataDog/orchestrion/internal/jobserver/client"
 	"github.com/DataDog/orchestrion/internal/traceutil"
@@ -23,38 +23,19 @@ import (
 )
 
 type config struct {
-	toolexec string
+	toolexec []string
 }
 
 type Option func(*config)
 
-// WithToolexec forces a call to Run() to build with the -toolexec option when
-// wrapping a build command
+// WithToolexec sets the command to be used as the `-toolexec` argument.
 func WithToolexec(bin string, args ...string) Option {
-	var buffer strings.Builder
-	if _, err := fmt.Fprintf(&buffer, "%q", bin); err != nil {
-		// This is expected to never happen (short of running OOM, maybe?)
-		panic(err)
-	}
-
-	for _, arg := range args {
-		if buffer.Len() > 0 {
-			_ = buffer.WriteByte(' ')
-		}
-		// We are quoting all arguments to hopefully evade shell interpretation.
-		if _, err := fmt.Fprintf(&buffer, "%q", arg); err != nil {
-			// This is expected to never happen (short of running OOM, maybe?)
-			panic(err)
-		}
-	}
-	toolexec := buffer.String()
-	buffer.Reset() // Dispose of the buffer's content so its memory can be recclaimed.
+	toolexec := append([]string{bin}, args...)
 	return func(c *config) {
 		c.toolexec = toolexec
 	}
 }
 
-// BuildCmd returns a new exec.BuildCmd that will run the given goArgs, with the given opts applied.
 func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd, error) {
 	log := zerolog.Ctx(ctx)
 
@@ -91,8 +72,13 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 		switch cmd := argv[1]; cmd {
 		// "go build" arguments are shared by build, clean, get, install, list, run, and test.
 		case "build", "clean", "get", "install", "list", "run", "test":
-			if cfg.toolexec != "" {
-				log.Debug().Str("-toolexec", cfg.toolexec).Msg("Adding -toolexec argument")
+			if len(cfg.toolexec) != 0 {
+				// The go command splits this again; it does not involve a shell.
+				toolexec, err := quoted.Join(cfg.toolexec...)
+				if err != nil {
+					return nil, fmt.Errorf("quoting -toolexec argument: %w", err)
+				}
+				log.Debug().Str("-toolexec", toolexec).Msg("Adding -toolexec argument")
 
 				oldLen := len(argv)
 				// Add two slots to the argV array
@@ -101,7 +87,7 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 				copy(argv[4:], argv[2:oldLen])
 				// Fill in the two slots for toolexec.
 				argv[2] = "-toolexec"
-				argv[3] = cfg.toolexec
+				argv[3] = toolexec
 
 				log.Debug().Msg("Starting job server goroutine")
 				serverStarted := make(chan struct{})
diff --git a/internal/jobserver/pkgs/resolve.go b/internal/jobserver/pkgs/resolve.go
index 0890622..7e263b6 100644
--- a/internal/jobserver/pkgs/resolve.go
+++ b/internal/jobserver/pkgs/resolve.go
@@ -20,6 +20,7 @@ import (
 	"github.com/DataDog/dd-trace-go/v2/ddtrace/tracer"
 	"github.com/DataDog/orchestrion/internal/binpath"
 	"github.com/DataDog/orchestrion/internal/goflags"
+	"github.com/DataDog/orchestrion/internal/goflags/quoted"
 	"github.com/DataDog/orchestrion/internal/jobserver/client"
 	"github.com/DataDog/orchestrion/internal/traceutil"
 	"github.com/rs/zerolog"
@@ -195,7 +196,11 @@ func loadResolvedPackages(ctx context.Context, req *ResolveRequest, log zerolog.
 		"-a",
 		"-toolexec",
 	)
-	buildFlags := append(goFlags.Slice(), fmt.Sprintf("-toolexec=%q toolexec", binpath.Orchestrion))
+	toolexec, err := quoted.Join(binpath.Orchestrion, "toolexec")
+	if err != nil {
+		return resolvedPackageSet{}, fmt.Errorf("quoting -toolexec argument: %w", err)
+	}
+	buildFlags := append(goFlags.Slice(), "-toolexec="+toolexec)
 	loadConfig := &packages.Config{
 		Context: ctx,
 		Mode: packages.NeedExportFile | packages.NeedFiles |
-- 
2.43.0


From 74ac4edca0fb73fdea9958a4489d02926732e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 56/71] fix: the -C flag of go commands is honored before
 pinning, and after the name of the command

---
 internal/cmd/diff.go      |  6 ++++-
 internal/cmd/go.go        |  8 ++++++-
 internal/goproxy/dashc.go | 47 +++++++++++++++++++++------------------
 internal/goproxy/proxy.go | 22 +++++++++++-------
 4 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/internal/cmd/diff.go b/internal/cmd/diff.go
index fe8a18e..87d1523 100644
--- a/internal/cmd/diff.go
+++ b/internal/cmd/diff.go
@@ -102,7 +102,11 @@ func workFolder(clictx *cli.Context) (string, error) {
 		return workFolder, nil
 	}
 
-	return executeBuildAndCaptureWorkDir(clictx, prepareBuildArgs(clictx.Args().Slice(), clictx.Bool(noCacheFlag.Name)))
+	args, err := goproxy.ChangeDirectory(clictx.Context, clictx.Args().Slice())
+	if err != nil {
+		return "", cli.Exit(err, -1)
+	}
+	return executeBuildAndCaptureWorkDir(clictx, prepareBuildArgs(args, clictx.Bool(noCacheFlag.Name)))
 }
 
 func prepareBuildArgs(args []string, forceRebuild bool) []string {
diff --git a/internal/cmd/go.go b/internal/cmd/go.go
index 195d54b..04f6631 100644
--- a/internal/cmd/go.go
+++ b/internal/cmd/go.go
@@ -30,11 +30,17 @@ var (
 			)
 			defer func() { span.Finish(tracer.WithError(err)) }()
 
+			// The directory may be that of another module, so this needs to come first.
+			goArgs, err := goproxy.ChangeDirectory(ctx, clictx.Args().Slice())
+			if err != nil {
+				return cli.Exit(err, -1)
+			}
+
 			if err := pin.AutoPinOrchestrion(ctx, clictx.App.Writer, clictx.App.ErrWriter); err != nil {
 				return cli.Exit(err, -1)
 			}
 
-			if err := goproxy.Run(ctx, clictx.Args().Slice(), goproxy.WithToolexec(binpath.Orchestrion, "toolexec")); err != nil {
+			if err := goproxy.Run(ctx, goArgs, goproxy.WithToolexec(binpath.Orchestrion, "toolexec")); err != nil {
 				var exitErr *exec.ExitError
 				if errors.As(err, &exitErr) {
 					return cli.Exit(err, exitErr.ExitCode())
diff --git a/internal/goproxy/dashc.go b/internal/goproxy/dashc.go
index 9e1eb7d..0328178 100644
--- a/internal/goproxy/dashc.go
+++ b/internal/goproxy/dashc.go
@@ -8,41 +8,44 @@ package goproxy
 import (
 	"context"
 	"os"
+	"slices"
 	"strings"
 
 	"github.com/rs/zerolog"
 )
 
-// processDashC gets the command line arguments passed to a "go" command (without "go" itself), and processes the "-C"
-// flag present at the beginning of the slice (if present), changing directories as requested, then returns the slice
-// without it.
+// ChangeDirectory gets the command line arguments passed to a "go" command (without "go" itself), and processes the
+// "-C" flag if present, changing directories as requested, then returns the slice without it.
 //
-// The "-C" flags is required to be the very first argument provided to "go" commands.
-func processDashC(ctx context.Context, args []string) ([]string, error) {
-	if len(args) == 0 {
-		return nil, nil
-	}
-
+// The "-C" flag is required to be the very first flag provided to "go" commands, and may be before or after the name of
+// the command. In the latter case, it is only processed for these commands that build.
+func ChangeDirectory(ctx context.Context, args []string) ([]string, error) {
 	log := zerolog.Ctx(ctx)
 
-	arg0 := args[0]
-	if !strings.HasPrefix(arg0, "-C") {
+	idx := 0
+	if len(args) > 0 && isBuildCommand(args[0]) {
+		idx = 1
+	}
+	if idx >= len(args) {
 		return args, nil
 	}
 
-	if arg0 == "-C" && len(args) > 1 {
-		// ["-C", "directory", ...]
-		log.Trace().Str("-C", args[1]).Msg("Found '-C <path>' flag, changing directory")
-		return args[2:], os.Chdir(args[1])
+	flag, dir, hasValue := strings.Cut(args[idx], "=")
+	if flag != "-C" && flag != "--C" {
+		return args, nil
 	}
 
-	if !strings.HasPrefix(arg0, "-C=") {
-		// Probably not the flag we're looking for... ignoring that...
-		log.Trace().Str("flag", arg0).Msg("Ignoring unknown flag with -C prefix")
-		return args, nil
+	end := idx + 1
+	if !hasValue {
+		if end >= len(args) {
+			// The value is missing, the go command reports that...
+			return args, nil
+		}
+		// ["-C", "directory", ...]
+		dir = args[end]
+		end++
 	}
 
-	// ["-C=directory", ...]
-	log.Trace().Str("-C", arg0[3:]).Msg("Found '-C=<path>' flag, changing directory")
-	return args[1:], os.Chdir(arg0[3:])
+	log.Trace().Str("-C", dir).Msg("Found '-C <path>' flag, changing directory")
+	return slices.Concat(args[:idx], args[end:]), os.Chdir(dir)
 }
diff --git a/internal/goproxy/proxy.go b/internal/goproxy/proxy.go
index 32c1967..68df421 100644
--- a/internal/goproxy/proxy.go
+++ b/internal/goproxy/proxy.go
@@ -36,6 +36,19 @@ func WithToolexec(bin string, args ...string) Option {
 	}
 }
 
+// isBuildCommand determines whether the go command's sub-command builds packages.
+func isBuildCommand(cmd string) bool {
+	switch cmd {
+	// "go build" arguments are shared by build, clean, get, install, list, run, and test.
+	case "build", "clean", "get", "install", "list", "run", "test":
+		return true
+	default:
+		return false
+	}
+}
+
+// BuildCmd prepares the execution of the go command with the provided arguments,
+// of which the "-C" flag has been removed by [ChangeDirectory].
 func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd, error) {
 	log := zerolog.Ctx(ctx)
 
@@ -44,11 +57,6 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 		opt(&cfg)
 	}
 
-	goArgs, err := processDashC(ctx, goArgs)
-	if err != nil {
-		return nil, err
-	}
-
 	goBin, err := goenv.GoBinPath()
 	if err != nil {
 		return nil, fmt.Errorf("locating 'go' binary: %w", err)
@@ -69,9 +77,7 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 		env            = os.Environ()
 	)
 	if len(argv) > 1 {
-		switch cmd := argv[1]; cmd {
-		// "go build" arguments are shared by build, clean, get, install, list, run, and test.
-		case "build", "clean", "get", "install", "list", "run", "test":
+		if isBuildCommand(argv[1]) {
 			if len(cfg.toolexec) != 0 {
 				// The go command splits this again; it does not involve a shell.
 				toolexec, err := quoted.Join(cfg.toolexec...)
-- 
2.43.0


From 5568fce40e9d11024c377bf2c8b1141eca8e02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 57/71] fix: the help command of go is forwarded

---
 internal/cmd/go.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/cmd/go.go b/internal/cmd/go.go
index 04f6631..6d5ac90 100644
--- a/internal/cmd/go.go
+++ b/internal/cmd/go.go
@@ -24,6 +24,7 @@ var (
 		UsageText:       "orchestrion go [go command arguments...]",
 		Args:            true,
 		SkipFlagParsing: true,
+		HideHelp:        true, // The "help" argument is for the command being run
 		Action: func(clictx *cli.Context) (err error) {
 			span, ctx := tracer.StartSpanFromContext(clictx.Context, "go",
 				tracer.ResourceName(strings.Join(clictx.Args().Slice(), " ")),
-- 
2.43.0


From ba0679dd58a6999231daadd2cf87fbf47bc71496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 58/71] fix: the tracer's session ID does not matter to package
 resolution

The tracer library sets _DD_ROOT_GO_SESSION_ID to a random value in every process that did not inherit one. When the go
command is run with -toolexec="orchestrion toolexec", that is each of the tools, so that no two of them shared the
resolution of a package.
---
 internal/jobserver/pkgs/resolve.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/jobserver/pkgs/resolve.go b/internal/jobserver/pkgs/resolve.go
index 7e263b6..dd59b05 100644
--- a/internal/jobserver/pkgs/resolve.go
+++ b/internal/jobserver/pkgs/resolve.go
@@ -30,6 +30,8 @@ import (
 const (
 	envVarParentID = "ORCHESTRION_PKG.RESOLVE_PARENT_ID"
 	envVarGotmpdir = "GOTMPDIR"
+	// envVarRootSessionID is set by the tracer library to a new random value in every process that did not inherit one.
+	envVarRootSessionID = "_DD_ROOT_GO_SESSION_ID"
 )
 
 var envIgnoreList = map[string]func(*ResolveRequest, string){
@@ -46,6 +48,7 @@ var envIgnoreList = map[string]func(*ResolveRequest, string){
 	"TOOLEXEC_IMPORTPATH":       func(r *ResolveRequest, path string) { r.toolexecImportpath = path },
 	envVarParentID:              func(r *ResolveRequest, id string) { r.resolveParentID = id },
 	envVarResolvingTestVariants: nil,
+	envVarRootSessionID:         nil,
 }
 
 type (
-- 
2.43.0


From 54993548637dbdcadd22c5c8d182730cec55fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 59/71] fix: the last GOTMPDIR entry of the environment is the
 effective one

As for all other variables, entries that are repeated in the environment of a package resolution request override those
before them.
---
 internal/jobserver/pkgs/resolve.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/internal/jobserver/pkgs/resolve.go b/internal/jobserver/pkgs/resolve.go
index dd59b05..43b2b54 100644
--- a/internal/jobserver/pkgs/resolve.go
+++ b/internal/jobserver/pkgs/resolve.go
@@ -37,13 +37,8 @@ const (
 var envIgnoreList = map[string]func(*ResolveRequest, string){
 	// We don't use this, instead rely on the [ResolveRequest.Dir] field.
 	"PWD": nil,
-	// We override `GOTMPDIR` with the [ResolveRequest.TempDir] field.
-	envVarGotmpdir: func(r *ResolveRequest, dir string) {
-		if r.TempDir != "" {
-			return
-		}
-		r.TempDir = dir
-	},
+	// We override `GOTMPDIR` with the [ResolveRequest.TempDir] field, which defaults to its value.
+	envVarGotmpdir: nil,
 	// Known to change between invocations & irrelevant to the resolution, but can be used to detect cycles.
 	"TOOLEXEC_IMPORTPATH":       func(r *ResolveRequest, path string) { r.toolexecImportpath = path },
 	envVarParentID:              func(r *ResolveRequest, id string) { r.resolveParentID = id },
@@ -95,9 +90,14 @@ func (r ResolveRequest) ForeachSpanTag(set func(key string, value any)) {
 func (r *ResolveRequest) canonicalizeEnviron() {
 	named := make(map[string]string, len(r.Env))
 	names := make([]string, 0, len(r.Env))
+	var gotmpdir string
 
 	for _, kv := range r.Env {
 		name, val, _ := strings.Cut(kv, "=")
+		if name == envVarGotmpdir {
+			// As with any other variable, the last one is the effective one.
+			gotmpdir = val
+		}
 		if cb, ignore := envIgnoreList[name]; ignore {
 			if cb != nil {
 				cb(r, val)
@@ -110,6 +110,10 @@ func (r *ResolveRequest) canonicalizeEnviron() {
 		named[name] = kv
 	}
 
+	if r.TempDir == "" {
+		r.TempDir = gotmpdir
+	}
+
 	slices.Sort(names)
 	r.Env = make([]string, 0, len(names))
 	for _, name := range names {
-- 
2.43.0


From 2466d580480e448da9598960184c98ba670226d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 60/71] fix: errors of packages that others depend on are
 reported once

Packages that failed to build have no archive, so they and everything that depends on them were visited again on each
path to them. The errors took time and memory exponential in the depth of the graph to be reported.
---
 internal/jobserver/pkgs/resolve.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/jobserver/pkgs/resolve.go b/internal/jobserver/pkgs/resolve.go
index 43b2b54..1b944ee 100644
--- a/internal/jobserver/pkgs/resolve.go
+++ b/internal/jobserver/pkgs/resolve.go
@@ -284,9 +284,13 @@ func (r *ResolveRequest) hash() (string, error) {
 }
 
 func (r ResolveResponse) mergeFrom(pkg *packages.Package) error {
-	if pkg.PkgPath == "" || pkg.PkgPath == "unsafe" || r[pkg.PkgPath].ExportFile != "" {
-		// Ignore the "unsafe" package (no archive file, ever), packages with an empty import path
-		// (standard library), and those already present in the map (already processed previously).
+	if pkg.PkgPath == "" || pkg.PkgPath == "unsafe" {
+		// Ignore the "unsafe" package (no archive file, ever), and packages with an empty import path
+		// (standard library).
+		return nil
+	}
+	if _, found := r[pkg.PkgPath]; found {
+		// Already processed previously, including when it has no archive due to a failure.
 		return nil
 	}
 
-- 
2.43.0


From 6a557e73012025c789fbd7436328fdd24beb8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 61/71] fix: packages that import nothing can be given imports

---
 internal/toolexec/importcfg/importcfg.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/toolexec/importcfg/importcfg.go b/internal/toolexec/importcfg/importcfg.go
index 9bcebfe..371990a 100644
--- a/internal/toolexec/importcfg/importcfg.go
+++ b/internal/toolexec/importcfg/importcfg.go
@@ -51,6 +51,9 @@ func ParseFile(ctx context.Context, filename string) (ImportConfig, error) {
 
 // ParseFile parses the `importcfg` (or `importcfg.link`) data from the provided reader.
 func parse(r io.Reader) (reg ImportConfig, err error) {
+	// A package that imports nothing has no packagefile line, and may get some later all the same.
+	reg.PackageFile = make(map[string]string)
+
 	scanner := bufio.NewScanner(r)
 	scanner.Split(bufio.ScanLines)
 	// The modinfo line of a link configuration grows with the number of modules in the build, and can
@@ -77,9 +80,6 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 				continue
 			}
 
-			if reg.PackageFile == nil {
-				reg.PackageFile = make(map[string]string)
-			}
 			reg.PackageFile[importPath] = archive
 
 		case "importmap":
-- 
2.43.0


From a9e475a593cf03391b8d7a80796c8d1da02e0b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 62/71] fix: the storage of job servers of builds is removed

---
 internal/goproxy/proxy.go | 41 +++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/internal/goproxy/proxy.go b/internal/goproxy/proxy.go
index 68df421..cbcf4f5 100644
--- a/internal/goproxy/proxy.go
+++ b/internal/goproxy/proxy.go
@@ -47,9 +47,15 @@ func isBuildCommand(cmd string) bool {
 	}
 }
 
+// Cmd is a go command to be run, together with the job server it relies upon.
+type Cmd struct {
+	*exec.Cmd
+	shutdown func() // Shuts the job server down, and waits until this is done
+}
+
 // BuildCmd prepares the execution of the go command with the provided arguments,
 // of which the "-C" flag has been removed by [ChangeDirectory].
-func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd, error) {
+func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*Cmd, error) {
 	log := zerolog.Ctx(ctx)
 
 	var cfg config
@@ -74,6 +80,7 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 	var (
 		server         *jobserver.Server
 		serverStartErr error
+		shutdown       = func() {}
 		env            = os.Environ()
 	)
 	if len(argv) > 1 {
@@ -96,8 +103,15 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 				argv[3] = toolexec
 
 				log.Debug().Msg("Starting job server goroutine")
+				serverCtx, cancel := context.WithCancel(ctx)
 				serverStarted := make(chan struct{})
+				serverStopped := make(chan struct{})
+				shutdown = func() {
+					cancel()
+					<-serverStopped
+				}
 				go func() {
+					defer close(serverStopped)
 					// We'll need a job server to support toolexec operations
 					log.Debug().Msg("Initializing job server")
 					server, serverStartErr = jobserver.New(ctx, nil)
@@ -110,20 +124,15 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 					defer func() {
 						log.Debug().Msg("Shutting down job server")
 						server.Shutdown()
-						log.Trace().Msg(server.CacheStats.String())
+						server.WaitForShutdown()
 						log.Debug().Msg("Job server shut down complete")
 					}()
 					close(serverStarted)
 
-					<-ctx.Done()
-					if ctxErr := ctx.Err(); ctxErr != nil {
-						log.Debug().
-							Err(ctxErr).
-							Str("reason", ctxErr.Error()).
-							Msg("Context cancelled, job server cleanup triggered")
-					} else {
-						log.Debug().Msg("Context done (normal shutdown), job server cleanup triggered")
-					}
+					<-serverCtx.Done()
+					log.Debug().
+						AnErr("reason", ctx.Err()).
+						Msg("Job server cleanup triggered")
 				}()
 				<-serverStarted
 				if serverStartErr == nil {
@@ -137,6 +146,7 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 		}
 	}
 	if serverStartErr != nil {
+		shutdown()
 		return nil, fmt.Errorf("job server failed to start: %w", serverStartErr)
 	}
 
@@ -147,7 +157,7 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 	cmd.Stdout = os.Stdout
 	cmd.Stderr = os.Stderr
 
-	return cmd, nil
+	return &Cmd{Cmd: cmd, shutdown: shutdown}, nil
 }
 
 // Run takes a go command ("build", "install", etc...) with its arguments, and
@@ -181,3 +191,10 @@ func Run(ctx context.Context, goArgs []string, opts ...Option) error {
 	log.Debug().Str("command", cmd.String()).Msg("Command execution completed successfully")
 	return nil
 }
+
+// Run runs the command, then shuts the job server down.
+func (c *Cmd) Run() error {
+	defer c.shutdown()
+
+	return c.Cmd.Run()
+}
-- 
2.43.0


From 6c62f7bdfe2db69c2041ca7955bcf5ee741daf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 63/71] fix: interrupted builds ended with status 0, and
 interrupted servers left their files

---
 internal/cmd/server.go       | 39 +++++++++++++++++-------------------
 internal/goproxy/proxy.go    | 28 ++++++++++++++++++++++++--
 internal/jobserver/server.go |  4 +++-
 3 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/internal/cmd/server.go b/internal/cmd/server.go
index 3fff346..19905a9 100644
--- a/internal/cmd/server.go
+++ b/internal/cmd/server.go
@@ -7,11 +7,11 @@ package cmd
 
 import (
 	"context"
-	"errors"
 	"fmt"
 	"io"
 	"os"
 	"os/signal"
+	"syscall"
 	"time"
 
 	"github.com/DataDog/orchestrion/internal/filelock"
@@ -104,6 +104,8 @@ func start(ctx context.Context, opts *jobserver.Options, wait bool) (*jobserver.
 	}
 
 	if wait {
+		cancelShutdownOnInterrupt := shutdownOnInterrupt(server)
+		defer cancelShutdownOnInterrupt()
 		server.WaitForShutdown()
 		return nil, nil
 	}
@@ -147,8 +149,6 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 	}
 
 	// This process "owns" the URL file, so it'll try had to remove it when it terminates...
-	cancelDeleteOnInterrupt := deleteOnInterrupt(ctx, urlFile)
-	defer cancelDeleteOnInterrupt()
 	defer os.Remove(urlFile)
 
 	// Start the server normally...
@@ -156,6 +156,8 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 	if err != nil {
 		return err
 	}
+	cancelShutdownOnInterrupt := shutdownOnInterrupt(server)
+	defer cancelShutdownOnInterrupt()
 	clientURL := server.ClientURL()
 	log.Trace().
 		Str("url-file", urlFile).
@@ -190,30 +192,25 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 	return nil
 }
 
-// deleteOnInterrupt attempts to deletes the provided file when an interrupt signal is received. It returns a
-// cancellation function that can be used to uninstall the signal handler.
-func deleteOnInterrupt(ctx context.Context, path string) func() {
+// shutdownOnInterrupt shuts the server down when this process is asked to terminate, so that it gets to clean up. It
+// returns a function that uninstalls the signal handler.
+func shutdownOnInterrupt(server *jobserver.Server) func() {
 	sigChan := make(chan os.Signal, 1)
-	cancel := func() {
-		signal.Stop(sigChan)
-		close(sigChan)
-	}
+	done := make(chan struct{})
 
+	signal.Notify(sigChan, os.Interrupt, syscall.SIGTERM)
 	go func() {
-		_, closed := <-sigChan
-		if closed {
-			return
-		}
-		defer cancel()
-		if err := os.Remove(path); err != nil && !errors.Is(err, os.ErrNotExist) {
-			log := zerolog.Ctx(ctx)
-			log.Warn().Str("path", path).Err(err).Msg("os.Remove failed")
+		select {
+		case <-sigChan:
+			server.Shutdown()
+		case <-done:
 		}
 	}()
 
-	signal.Notify(sigChan, os.Interrupt)
-
-	return cancel
+	return func() {
+		signal.Stop(sigChan)
+		close(done)
+	}
 }
 
 // hasURLToRunningServer checks whether the provided URL file contains the URL to a running server,
diff --git a/internal/goproxy/proxy.go b/internal/goproxy/proxy.go
index cbcf4f5..dec68a9 100644
--- a/internal/goproxy/proxy.go
+++ b/internal/goproxy/proxy.go
@@ -10,6 +10,8 @@ import (
 	"fmt"
 	"os"
 	"os/exec"
+	"os/signal"
+	"syscall"
 
 	"github.com/DataDog/dd-trace-go/v2/ddtrace/tracer"
 	"github.com/DataDog/orchestrion/internal/goenv"
@@ -192,9 +194,31 @@ func Run(ctx context.Context, goArgs []string, opts ...Option) error {
 	return nil
 }
 
-// Run runs the command, then shuts the job server down.
+// Run runs the command, then shuts the job server down. The signals that ask for termination are passed on to the
+// command, so that it is up to the command how these are dealt with.
 func (c *Cmd) Run() error {
 	defer c.shutdown()
 
-	return c.Cmd.Run()
+	sigChan := make(chan os.Signal, 1)
+	signal.Notify(sigChan, os.Interrupt, syscall.SIGTERM)
+	defer signal.Stop(sigChan)
+
+	if err := c.Start(); err != nil {
+		return err
+	}
+
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		for {
+			select {
+			case sig := <-sigChan:
+				_ = c.Process.Signal(sig)
+			case <-done:
+				return
+			}
+		}
+	}()
+
+	return c.Wait()
 }
diff --git a/internal/jobserver/server.go b/internal/jobserver/server.go
index 0e68e1f..eeec0bb 100644
--- a/internal/jobserver/server.go
+++ b/internal/jobserver/server.go
@@ -106,7 +106,9 @@ func New(ctx context.Context, opts *Options) (srv *Server, err error) {
 			{Username: sysUser, Password: noPassword, Account: systemAccount},
 		},
 		SystemAccount: systemAccount.Name,
-		MaxPayload:    server.MAX_PAYLOAD_MAX_SIZE,
+		// The NATS server would end the process with status 0 upon being interrupted.
+		NoSigs:     true,
+		MaxPayload: server.MAX_PAYLOAD_MAX_SIZE,
 	})
 	if err != nil {
 		return nil, fmt.Errorf("creating NATS server instance: %w", err)
-- 
2.43.0


From b9c5a6f96671b13cdef52fdaede972a46790af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 64/71] fix: job servers missed the early removal of their URL
 file, and removed that of others

---
 internal/cmd/server.go  | 40 ++++++++++++++++++++++++++++++++--------
 internal/filelock/io.go |  8 ++++++++
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/internal/cmd/server.go b/internal/cmd/server.go
index 19905a9..17b0aa3 100644
--- a/internal/cmd/server.go
+++ b/internal/cmd/server.go
@@ -7,6 +7,7 @@ package cmd
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -148,9 +149,6 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 		return cli.Exit(fmt.Sprintf("A server is already listening on %q", url), 2)
 	}
 
-	// This process "owns" the URL file, so it'll try had to remove it when it terminates...
-	defer os.Remove(urlFile)
-
 	// Start the server normally...
 	server, err := start(ctx, opts, false)
 	if err != nil {
@@ -164,7 +162,18 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 		Str("url", clientURL).
 		Msg("Server component successfully started")
 
-	// Write the ClientURL into the urlFile
+	// This process "owns" the URL file, so it'll try hard to remove it when it terminates...
+	defer removeURLFile(ctx, urlFile, clientURL)
+
+	// Try to watch for removal of the URL file, so we can shut down the server eagerly when that happens. This needs to
+	// be in place before anyone gets to know the server.
+	cancelShutdownOnRemove := shutdownOnRemove(ctx, server, urlFile)
+	defer cancelShutdownOnRemove()
+
+	// Write the ClientURL into the urlFile, which may have the (longer) URL of a server that is not running anymore
+	if err := file.Truncate(0); err != nil {
+		return cli.Exit(fmt.Errorf("failed to truncate URL file at %q: %w", urlFile, err), 1)
+	}
 	if _, err := file.Write([]byte(clientURL)); err != nil {
 		return cli.Exit(fmt.Errorf("failed to write URL file at %q: %w", urlFile, err), 1)
 	}
@@ -184,14 +193,24 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 		Str("url", clientURL).
 		Msg("Released lock on URL file")
 
-	// Try to watch for removal of the URL file, so we can shut down the server eagerly when that happens.
-	cancelShutdownOnRemove := shutdownOnRemove(ctx, server, urlFile)
-	defer cancelShutdownOnRemove()
-
 	server.WaitForShutdown()
 	return nil
 }
 
+// removeURLFile removes the URL file if it has the provided URL. Once the file was removed, another server may have
+// created it again, and the file is not this process' to remove then.
+func removeURLFile(ctx context.Context, urlFile string, url string) {
+	log := zerolog.Ctx(ctx)
+
+	data, err := os.ReadFile(urlFile)
+	if err == nil && string(data) == url {
+		err = os.Remove(urlFile)
+	}
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		log.Warn().Str("url-file", urlFile).Err(err).Msg("Failed to remove URL file")
+	}
+}
+
 // shutdownOnInterrupt shuts the server down when this process is asked to terminate, so that it gets to clean up. It
 // returns a function that uninstalls the signal handler.
 func shutdownOnInterrupt(server *jobserver.Server) func() {
@@ -255,6 +274,11 @@ func shutdownOnRemove(ctx context.Context, server *jobserver.Server, urlFile str
 
 	if err := watcher.Add(urlFile); err != nil {
 		defer cancel()
+		if errors.Is(err, os.ErrNotExist) {
+			log.Trace().Str("url-file", urlFile).Msg("URL file was removed already; shutting down...")
+			server.Shutdown()
+			return noCancel
+		}
 		log.Warn().Str("url-file", urlFile).Err(err).Msg("Failed to watch URL file")
 		log.Warn().Str("url-file", urlFile).Msg("The server will not automatically shut down when the URL file is removed; only when it reaches the configured inactivity timeout.")
 		return noCancel
diff --git a/internal/filelock/io.go b/internal/filelock/io.go
index cbfe456..b675337 100644
--- a/internal/filelock/io.go
+++ b/internal/filelock/io.go
@@ -48,3 +48,11 @@ func (m *Mutex) WriteAt(b []byte, off int64) (int, error) {
 	}
 	return m.file.WriteAt(b, off)
 }
+
+// Truncate changes the size of the locked file.
+func (m *Mutex) Truncate(size int64) error {
+	if m.file == nil {
+		return fs.ErrClosed
+	}
+	return m.file.Truncate(size)
+}
-- 
2.43.0


From 089b838b76073d494a18eaa5952eb72cd203444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:21 +0000
Subject: [PATCH 65/71] fix: job servers clean up after hangups, too

---
 internal/cmd/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cmd/server.go b/internal/cmd/server.go
index 17b0aa3..79fa873 100644
--- a/internal/cmd/server.go
+++ b/internal/cmd/server.go
@@ -218,6 +218,9 @@ func shutdownOnInterrupt(server *jobserver.Server) func() {
 	done := make(chan struct{})
 
 	signal.Notify(sigChan, os.Interrupt, syscall.SIGTERM)
+	if !signal.Ignored(syscall.SIGHUP) {
+		signal.Notify(sigChan, syscall.SIGHUP)
+	}
 	go func() {
 		select {
 		case <-sigChan:
-- 
2.43.0


From 275a86d2310ae86e330d66a779d91cc27631f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 66/71] fix: compile commands that cannot read their
 dependencies inform the job server

---
 internal/toolexec/proxy/compile.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/internal/toolexec/proxy/compile.go b/internal/toolexec/proxy/compile.go
index b702e4e..019fa95 100644
--- a/internal/toolexec/proxy/compile.go
+++ b/internal/toolexec/proxy/compile.go
@@ -233,6 +233,21 @@ func (cmd *CompileCommand) notifyJobServer(ctx gocontext.Context, cmdErr error)
 	return err
 }
 
+// loadLinkDeps loads the [linkdeps.LinkDeps] closure of the packages listed in the importcfg file.
+func (cmd *CompileCommand) loadLinkDeps(ctx gocontext.Context) error {
+	imports, err := importcfg.ParseFile(ctx, cmd.Flags.ImportCfg)
+	if err != nil {
+		return fmt.Errorf("parsing %q: %w", cmd.Flags.ImportCfg, err)
+	}
+
+	cmd.LinkDeps, err = linkdeps.FromImportConfig(ctx, &imports)
+	if err != nil {
+		return fmt.Errorf("reading %s closure from %s: %w", linkdeps.Filename, cmd.Flags.ImportCfg, err)
+	}
+
+	return nil
+}
+
 // parseCompileCommand parses a [*CompileCommand] from the provided arguments.
 // It sends an [nbt.StartRequest] to the job server to determine whether a
 // previous execution of the same command has produced re-usable artifacts;
@@ -269,14 +284,10 @@ func parseCompileCommand(ctx gocontext.Context, importPath string, args []string
 	if res.FinishToken != "" {
 		cmd.finishToken = res.FinishToken
 
-		imports, err := importcfg.ParseFile(ctx, cmd.Flags.ImportCfg)
-		if err != nil {
-			return nil, fmt.Errorf("parsing %q: %w", cmd.Flags.ImportCfg, err)
-		}
-
-		cmd.LinkDeps, err = linkdeps.FromImportConfig(ctx, &imports)
-		if err != nil {
-			return nil, fmt.Errorf("reading %s closure from %s: %w", linkdeps.Filename, cmd.Flags.ImportCfg, err)
+		if err := cmd.loadLinkDeps(ctx); err != nil {
+			// The command is never going to be closed, so the job server is informed right away; otherwise whoever else
+			// requested the same build would be waiting forever.
+			return nil, errors.Join(err, cmd.notifyJobServer(ctx, err))
 		}
 
 		return cmd, nil
-- 
2.43.0


From 975f9e22e3ff42084676ba0664c1f5b4197ef022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 67/71] fix: the documented log levels NONE and OFF are
 accepted

---
 main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index a7e1554..7501362 100644
--- a/main.go
+++ b/main.go
@@ -234,8 +234,13 @@ func actionSetLogLevel(ctx *cli.Context, value string) error {
 		return cli.Exit(fmt.Errorf("setting environment %s: %w", envVarOrchestrionLogLevel, err), 1)
 	}
 	var level zerolog.Level
-	if err := level.UnmarshalText([]byte(value)); err != nil {
-		return cli.Exit(fmt.Errorf("invalid log level %q: %w", value, err), 1)
+	switch strings.ToUpper(value) {
+	case "NONE", "OFF":
+		level = zerolog.Disabled
+	default:
+		if err := level.UnmarshalText([]byte(value)); err != nil {
+			return cli.Exit(fmt.Errorf("invalid log level %q: %w", value, err), 1)
+		}
 	}
 
 	logger := zerolog.Ctx(ctx.Context).Level(level)
-- 
2.43.0


From 2a81ac6d8e72928bb3ff1a9695522e882ba70765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:57 +0000
Subject: [PATCH 68/71] fix: a blank log file name means there is none

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 7501362..3505aeb 100644
--- a/main.go
+++ b/main.go
@@ -253,6 +253,10 @@ func actionSetLogLevel(ctx *cli.Context, value string) error {
 }
 
 func actionSetLogFile(ctx *cli.Context, path string) error {
+	if path == "" {
+		// The environment variable is blank, there is no log file.
+		return nil
+	}
 	if !filepath.IsAbs(path) {
 		if wd, err := os.Getwd(); err == nil {
 			path = filepath.Join(wd, path)
-- 
2.43.0


From 8dde6a92378df259b0b397a89c6344dc0253d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 69/71] fix: the log file stays open for what is logged last

---
 main.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/main.go b/main.go
index 3505aeb..0fd5350 100644
--- a/main.go
+++ b/main.go
@@ -280,14 +280,7 @@ func actionSetLogFile(ctx *cli.Context, path string) error {
 	if err != nil {
 		return err
 	}
-	origAfter := ctx.Command.After
-	ctx.Command.After = func(ctx *cli.Context) error {
-		var err error
-		if origAfter != nil {
-			err = origAfter(ctx)
-		}
-		return errors.Join(err, file.Close())
-	}
+	// The file is not closed before the process ends: servers running in the background may still log.
 
 	log.Logger = zerolog.New(file).With().Timestamp().Logger()
 	if !logLevelSet {
-- 
2.43.0


From 9499d09ece14aca3136ec2882c266cdf457c32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 70/71] fix: job server requests that fail without a message
 are not successful

---
 internal/jobserver/common/handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/jobserver/common/handler.go b/internal/jobserver/common/handler.go
index 82e0bc9..1935ee9 100644
--- a/internal/jobserver/common/handler.go
+++ b/internal/jobserver/common/handler.go
@@ -110,14 +110,14 @@ func UnmarshalResponse[T any](ctx context.Context, data []byte) (_ T, err error)
 
 	var parsed struct {
 		successResponse[T]
-		errorResponse
+		Error *string `json:"error"` // Set if the request failed, possibly with a blank message
 	}
 	if err := json.Unmarshal(data, &parsed); err != nil {
 		return parsed.Result, err
 	}
 
-	if parsed.Error != "" {
-		return parsed.Result, errors.New(parsed.Error)
+	if parsed.Error != nil {
+		return parsed.Result, errors.New(*parsed.Error)
 	}
 
 	return parsed.Result, nil
-- 
2.43.0


From 0012eee6e25705a2ba38bc9fa628f8677adb37cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:45 +0000
Subject: [PATCH 71/71] fix: traces of job server requests do not nest in one
 another

---
 internal/jobserver/common/handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/jobserver/common/handler.go b/internal/jobserver/common/handler.go
index 1935ee9..175fb81 100644
--- a/internal/jobserver/common/handler.go
+++ b/internal/jobserver/common/handler.go
@@ -40,6 +40,7 @@ func HandleRequest[Res any, Req Request[Res]](ctx context.Context, handler Reque
 
 		// Spawn the handler in a new goroutine to avoid blocking the NATS subscription poller.
 		go func() {
+			ctx := ctx // The span is that of this request only
 			if spanCtx, err := tracer.Extract(traceutil.NATSCarrier{Msg: msg}); err == nil && spanCtx != nil {
 				span := tracer.StartSpan("nats.server",
 					tracer.ServiceName("github.com/DataDog/orchestrion/internal/jobserver"),
-- 
2.43.0

