package importcfg_test

import (
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/DataDog/orchestrion/internal/toolexec/importcfg"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

// refCfg is what the compiler and linker read from an import configuration
// (cmd/compile/internal/base.readImportCfg, cmd/link/internal/ld.readImportCfg).
type refCfg struct {
	files, maps map[string]string
	other       []string
}

func refParse(text string) refCfg {
	r := refCfg{files: map[string]string{}, maps: map[string]string{}}
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		verb, args, _ := strings.Cut(line, " ")
		before, after, eq := strings.Cut(args, "=")
		switch {
		case verb == "packagefile" && eq:
			r.files[before] = after
		case verb == "importmap" && eq:
			r.maps[before] = after
		default:
			r.other = append(r.other, line)
		}
	}
	return r
}

func refOf(cfg importcfg.ImportConfig) refCfg {
	r := refCfg{files: map[string]string{}, maps: map[string]string{}, other: cfg.Extras}
	for k, v := range cfg.PackageFile {
		r.files[k] = v
	}
	for k, v := range cfg.ImportMap {
		r.maps[k] = v
	}
	return r
}

func short(s string) string {
	if len(s) > 160 {
		return fmt.Sprintf("%s...(%d bytes)", s[:80], len(s))
	}
	return s
}

func diffMap(what string, got, want map[string]string) string {
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return fmt.Sprintf("%s %q is %q (present=%v), want %q", what, k, short(g), ok, short(v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s %q appeared", what, k)
		}
	}
	return ""
}

func diff(got, want refCfg) string {
	if d := diffMap("package file of", got.files, want.files); d != "" {
		return d
	}
	if d := diffMap("import mapping of", got.maps, want.maps); d != "" {
		return d
	}
	if len(got.other) != len(want.other) || (len(want.other) > 0 && !reflect.DeepEqual(got.other, want.other)) {
		var g, w []string
		for _, l := range got.other {
			g = append(g, short(l))
		}
		for _, l := range want.other {
			w = append(w, short(l))
		}
		return fmt.Sprintf("other lines are %q, want %q", g, w)
	}
	return ""
}

var segs = []string{"example.com", "net", "http", "a", "b", "v2", "yaml.v3", "vendor", "internal", "golang.org", "x", "pkg.test", "a-b", "c_d"}

func genImportPath(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(segs), 1, 4).Draw(t, "path"), "/")
}

func genArchivePath(t *rapid.T) string {
	return rapid.SampledFrom([]string{"$WORK/b001/_pkg_.a", "/tmp/go build/b=2/_pkg_.a", "/root/.cache/go-build/0a/0abc-d", "C:\\go\\pkg.a", "/x=y=z", "/päth/ü.a", "rel.a", "/tmp/#x/_pkg_.a"}).Draw(t, "archive")
}

// genText draws the text of an import configuration.
func genText(t *rapid.T) (string, bool) {
	n := rapid.IntRange(0, 14).Draw(t, "lines")
	var lines []string
	long := false
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 11).Draw(t, "kind") {
		case 0:
			lines = append(lines, "# import config")
		case 1:
			lines = append(lines, "")
		case 2, 3:
			lines = append(lines, "importmap "+genImportPath(t)+"="+genImportPath(t))
		case 4:
			size := rapid.SampledFrom([]int{10, 4000, 65000, 65537, 70000, 300000}).Draw(t, "modinfo")
			long = long || size > 5000
			lines = append(lines, fmt.Sprintf("modinfo %q", "0w\xaf\f\x92t\b\x02A\xe1\xc1\a\xe6\xd6\x18\xe6path\tcommand-line-arguments\n"+strings.Repeat("dep\texample.com/m=x\tv1.2.3\n", size/28)))
		case 5:
			lines = append(lines, rapid.SampledFrom([]string{"packageshlib a/b=/x.so", "packagefile broken", "importmap broken", "unknown", "go 1.22", "packagefilex a=b"}).Draw(t, "other"))
		default:
			lines = append(lines, "packagefile "+genImportPath(t)+"="+genArchivePath(t))
		}
	}
	text := strings.Join(lines, "\n")
	if rapid.Bool().Draw(t, "newline") {
		text += "\n"
	}
	if rapid.IntRange(0, 9).Draw(t, "crlf") == 0 {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	return text, long
}

func TestC18_RoundTrip(t *testing.T) {
	dir := t.TempDir()
	ctx := context.Background()
	vh.Run(t, vh.Opts{
		Rule:  "generated import configurations (comments, mappings, repeated entries, unknown and very long lines) parsed and rewritten, against a reading like the compiler's and linker's; non-trivial: package files and other lines are both present",
		Quick: 6000, Thorough: 24000,
	}, func(c *vh.Case) {
		text, long := genText(c.T)
		c.Desc(short(text))
		if long {
			c.Class("long line")
		}
		in, out := filepath.Join(dir, "importcfg"), filepath.Join(dir, "rewritten")
		vh.Must(os.WriteFile(in, []byte(text), 0o644))
		want := refParse(text)
		cfg, err := importcfg.ParseFile(ctx, in)
		if err != nil {
			c.Violation("parsing failed: %v", err)
		}
		if d := diff(refOf(cfg), want); d != "" {
			c.Violation("parsed: %s", d)
		}
		// An older, longer file in place must not shine through.
		vh.Must(os.WriteFile(out, []byte(strings.Repeat("packagefile old=old\n", 100)), 0o644))
		if err := cfg.WriteFile(out); err != nil {
			c.Violation("writing failed: %v", err)
		}
		data, err := os.ReadFile(out)
		vh.Must(err)
		if d := diff(refParse(string(data)), want); d != "" {
			c.Violation("rewritten: %s", d)
		}
		again, err := importcfg.ParseFile(ctx, out)
		if err != nil {
			c.Violation("parsing the rewritten file failed: %v", err)
		}
		if d := diff(refOf(again), want); d != "" {
			c.Violation("parsed again: %s", d)
		}
		if len(want.files) > 0 && len(want.other) > 0 {
			c.Nontrivial(text)
		}
	})
}

func TestC18_Combine(t *testing.T) {
	dir := t.TempDir()
	ctx := context.Background()
	vh.Run(t, vh.Opts{
		Rule:  "one generated configuration merged into another; non-trivial: both have some package in common with different archives, and the second has one more",
		Quick: 6000, Thorough: 24000,
	}, func(c *vh.Case) {
		ta, _ := genText(c.T)
		ta += "\npackagefile base/always=/always.a\n"
		tb, _ := genText(c.T)
		c.Desc([]string{short(ta), short(tb)})
		parse := func(name, text string) importcfg.ImportConfig {
			in := filepath.Join(dir, name)
			vh.Must(os.WriteFile(in, []byte(text), 0o644))
			cfg, err := importcfg.ParseFile(ctx, in)
			if err != nil {
				c.Violation("parsing failed: %v", err)
			}
			return cfg
		}
		a, b := parse("a", ta), parse("b", tb)
		ra, rb := refParse(ta), refParse(tb)
		changed := a.CombinePackageFile(&b)
		added, conflict := false, false
		for k, v := range rb.files {
			if have, ok := ra.files[k]; ok {
				conflict = conflict || have != v
				continue
			}
			ra.files[k] = v
			added = true
		}
		if d := diff(refOf(a), ra); d != "" {
			c.Violation("merged: %s", d)
		}
		if d := diff(refOf(b), rb); d != "" {
			c.Violation("the merged-in configuration changed: %s", d)
		}
		if changed != added {
			c.Violation("merge reports changed=%v, but it added=%v", changed, added)
		}
		if added && conflict {
			c.Nontrivial(ta + "|" + tb)
		}
	})
}

func TestC18_Lookup(t *testing.T) {
	dir := t.TempDir()
	ctx := context.Background()
	vh.Run(t, vh.Opts{
		Rule:  "archives are looked up by import path in generated configurations with mappings; non-trivial: a lookup went through a mapping",
		Quick: 3000, Thorough: 12000,
	}, func(c *vh.Case) {
		names := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "b", "vendor/b", "c/v2", "c", "d", "net/http"}), 1, 6, rapid.ID[string]).Draw(c.T, "names")
		sort.Strings(names)
		var lines []string
		content := map[string]string{}
		for i, n := range names {
			if rapid.IntRange(0, 3).Draw(c.T, "present") == 0 {
				continue
			}
			file := filepath.Join(dir, fmt.Sprint("archive", i))
			content[n] = "archive of " + n
			vh.Must(os.WriteFile(file, []byte(content[n]), 0o644))
			lines = append(lines, "packagefile "+n+"="+file)
		}
		maps := map[string]string{}
		for _, n := range names {
			if rapid.Bool().Draw(c.T, "map") {
				maps[n] = rapid.SampledFrom(names).Draw(c.T, "to")
				lines = append(lines, "importmap "+n+"="+maps[n])
			}
		}
		c.Desc(lines)
		in := filepath.Join(dir, "importcfg")
		vh.Must(os.WriteFile(in, []byte(strings.Join(rapid.Permutation(lines).Draw(c.T, "order"), "\n")), 0o644))
		cfg, err := importcfg.ParseFile(ctx, in)
		if err != nil {
			c.Violation("parsing failed: %v", err)
		}
		for _, n := range append(names, "missing") {
			target := n
			if m, ok := maps[n]; ok {
				target = m
			}
			want, ok := content[target]
			rc, err := cfg.Lookup(n)
			if (err == nil) != ok {
				c.Violation("lookup of %q: error %v, but an archive exists: %v", n, err, ok)
			}
			if !ok {
				continue
			}
			data, err := io.ReadAll(rc)
			rc.Close()
			if err != nil || string(data) != want {
				c.Violation("lookup of %q read %q (%v), want %q", n, data, err, want)
			}
			if target != n {
				c.Nontrivial(fmt.Sprint(lines))
			}
		}
	})
}
