package linkdeps_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/DataDog/orchestrion/internal/toolexec/aspect/linkdeps"
	"github.com/DataDog/orchestrion/internal/toolexec/importcfg"
	"github.com/DataDog/orchestrion/internal/toolexec/proxy"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"pgregory.net/rapid"
)

var pathSegments = []string{"example.com", "gopkg.in", "github.com", "net", "http", "http2", "a", "b", "c", "v2", "yaml.v3", "x_y", "some-thing", "ünïcode", "relocation", "import", "link.deps", "internal", "vendor", "Upper", "~tilde", "pkg.test", "[x]"}

func genPath(t *rapid.T) string {
	n := rapid.IntRange(1, 5).Draw(t, "segments")
	segs := make([]string, n)
	for i := range segs {
		segs[i] = rapid.SampledFrom(pathSegments).Draw(t, "segment")
	}
	p := strings.Join(segs, "/")
	if rapid.IntRange(0, 40).Draw(t, "long") == 0 {
		p += "/" + strings.Repeat("x", rapid.SampledFrom([]int{100, 4000, 5000, 70000}).Draw(t, "len"))
	}
	return p
}

func kindOf(imp bool) linkdeps.DependencyKind {
	if imp {
		return linkdeps.ImportDependency
	}
	return linkdeps.RelocationDependency
}

// genDeps draws a sequence of additions and returns the expected set.
func genDeps(t *rapid.T, max int) (deps linkdeps.LinkDeps, want map[string]bool, hist []string) {
	n := rapid.IntRange(0, max).Draw(t, "deps")
	want = map[string]bool{}
	var paths []string
	for i := 0; i < n; i++ {
		var p string
		if len(paths) > 0 && rapid.IntRange(0, 2).Draw(t, "again") == 0 {
			p = rapid.SampledFrom(paths).Draw(t, "path")
		} else {
			p = genPath(t)
			paths = append(paths, p)
		}
		imp := rapid.Bool().Draw(t, "import")
		deps.Add(p, kindOf(imp))
		want[p] = want[p] || imp
		hist = append(hist, fmt.Sprintf("%v %s", imp, short(p)))
	}
	return deps, want, hist
}

func short(s string) string {
	if len(s) > 120 {
		return s[:60] + "...(" + strconv.Itoa(len(s)) + ")"
	}
	return s
}

// compare says how the dependencies differ from the wanted set ("" if not).
func compare(deps *linkdeps.LinkDeps, want map[string]bool) string {
	names := make([]string, 0, len(want))
	for p := range want {
		names = append(names, p)
	}
	sort.Strings(names)
	got := deps.Dependencies()
	if len(got) != len(names) || (len(names) > 0 && !reflect.DeepEqual(got, names)) {
		return fmt.Sprintf("dependencies are %q, want %q", got, names)
	}
	if deps.Len() != len(names) || deps.Empty() != (len(names) == 0) {
		return fmt.Sprintf("Len=%d Empty=%v for %d dependencies", deps.Len(), deps.Empty(), len(names))
	}
	for _, p := range names {
		if !deps.Contains(p) {
			return fmt.Sprintf("%q is listed but not contained", p)
		}
		if deps.Kind(p) != kindOf(want[p]) {
			return fmt.Sprintf("%q has kind %v, want import=%v", short(p), deps.Kind(p), want[p])
		}
	}
	return ""
}

func TestC17_TextRoundTrip(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "sequences of additions (0..40, repeated with other strengths) written and read back through whole, one-byte and early-EOF readers; non-trivial: at least one dependency was re-added with another strength",
		Quick: 7200, Thorough: 28800,
	}, func(c *vh.Case) {
		deps, want, hist := genDeps(c.T, 40)
		c.Desc(hist)
		if d := compare(&deps, want); d != "" {
			c.Violation("after adding: %s", d)
		}
		var buf bytes.Buffer
		if err := deps.Write(&buf); err != nil {
			c.Violation("writing failed: %v", err)
		}
		text := buf.String()
		readers := map[string]func() io.Reader{
			"whole":    func() io.Reader { return strings.NewReader(text) },
			"one byte": func() io.Reader { return iotest.OneByteReader(strings.NewReader(text)) },
			"data+EOF": func() io.Reader { return iotest.DataErrReader(strings.NewReader(text)) },
		}
		for name, r := range readers {
			got, err := linkdeps.Read(r())
			if err != nil {
				c.Violation("reading back (%s) failed: %v", name, err)
			}
			if d := compare(&got, want); d != "" {
				c.Violation("after reading back (%s): %s", name, d)
			}
		}
		// Canonical: built in any other order the text is the same.
		var again linkdeps.LinkDeps
		keys := make([]string, 0, len(want))
		for p := range want {
			keys = append(keys, p)
		}
		sort.Strings(keys)
		for _, p := range rapid.Permutation(keys).Draw(c.T, "order") {
			again.Add(p, kindOf(want[p]))
		}
		var buf2 bytes.Buffer
		vh.Must(again.Write(&buf2))
		if buf2.String() != text {
			c.Violation("the same set written twice gives different text:\n%s\n%s", text, buf2.String())
		}
		// A failing reader is never taken for a shorter record.
		if len(text) > 1 {
			cut := rapid.IntRange(0, len(text)-1).Draw(c.T, "cut")
			boom := errors.New("boom")
			if got, err := linkdeps.Read(io.MultiReader(strings.NewReader(text[:cut]), iotest.ErrReader(boom))); err == nil {
				c.Violation("a read error after %d bytes was ignored: %q", cut, got.Dependencies())
			}
		}
		if len(hist) > len(want) {
			c.Nontrivial(strings.Join(hist, ";"))
		}
	})
}

// A reference reading of the text formats.
func refRead(text string) (map[string]bool, bool) {
	lines := strings.Split(text, "\n")
	out := map[string]bool{}
	switch lines[0] {
	case "#link.deps@v1":
		for _, l := range lines[1:] {
			if l == "" || l[0] == '#' {
				continue
			}
			out[l] = true
		}
	case "#link.deps@v2":
		for _, l := range lines[1:] {
			if l == "" || l[0] == '#' {
				continue
			}
			k, p, ok := strings.Cut(l, "\t")
			if !ok || p == "" || (k != "import" && k != "relocation") {
				return nil, false
			}
			out[p] = out[p] || k == "import"
		}
	default:
		return nil, false
	}
	return out, true
}

func TestC17_Records(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "generated record texts of every version (old, current, newer), with comments, blank lines, missing final newline, malformed entries, against a reference reader; non-trivial: the record has entries or must be rejected",
		Quick: 15000, Thorough: 60000,
	}, func(c *vh.Case) {
		header := rapid.SampledFrom([]string{"#link.deps@v1", "#link.deps@v2", "#link.deps@v2", "#link.deps@v3", "#link.deps@v20", "#link.deps", "", "example.com/a", "#link.deps@v", "link.deps@v1", "#link.deps@v10"}).Draw(c.T, "header")
		n := rapid.IntRange(0, 8).Draw(c.T, "n")
		lines := []string{header}
		for i := 0; i < n; i++ {
			p := genPath(c.T)
			kind := rapid.IntRange(0, 19).Draw(c.T, "line")
			switch {
			case kind == 0:
				lines = append(lines, "")
			case kind == 1:
				lines = append(lines, "# "+p)
			case kind == 2 && header != "#link.deps@v1":
				lines = append(lines, p) // no kind
			case kind == 3 && header != "#link.deps@v1":
				lines = append(lines, rapid.SampledFrom([]string{"Import", "reloc", "weak", "imports", "0"}).Draw(c.T, "kind")+"\t"+p)
			case header == "#link.deps@v1":
				lines = append(lines, p)
			default:
				lines = append(lines, rapid.SampledFrom([]string{"import", "relocation"}).Draw(c.T, "kind")+"\t"+p)
			}
		}
		text := strings.Join(lines, "\n")
		if rapid.Bool().Draw(c.T, "final newline") {
			text += "\n"
		}
		c.Desc(short(text))
		want, ok := refRead(text)
		got, err := linkdeps.Read(strings.NewReader(text))
		if ok && err != nil {
			c.Violation("valid record rejected: %v", err)
		}
		if !ok && err == nil {
			c.Violation("invalid record read as %q", got.Dependencies())
		}
		if ok {
			if d := compare(&got, want); d != "" {
				c.Violation("record: %s", d)
			}
		}
		file := filepath.Join(os.Getenv("TMPDIR"), "record")
		vh.Must(os.WriteFile(file, []byte(text), 0o644))
		got2, err2 := linkdeps.ReadFile(file)
		if (err2 == nil) != (err == nil) || (err == nil && !reflect.DeepEqual(got2.Dependencies(), got.Dependencies())) {
			c.Violation("ReadFile and Read disagree")
		}
		if !ok || len(want) > 0 {
			c.Nontrivial(text)
		}
	})
}

type member struct {
	name string
	data []byte
}

func arBytes(members []member) []byte {
	var b bytes.Buffer
	b.WriteString("!<arch>\n")
	for _, m := range members {
		fmt.Fprintf(&b, "%-16s%-12d%-6d%-6d%-8o%-10d`\n", m.name, 0, 0, 0, 0o644, len(m.data))
		b.Write(m.data)
		if len(m.data)%2 == 1 {
			b.WriteByte(0)
		}
	}
	return b.Bytes()
}

// arParse is an independent reader of the common archive format, as strict as cmd/internal/archive.
func arParse(data []byte) ([]member, error) {
	if !bytes.HasPrefix(data, []byte("!<arch>\n")) {
		return nil, errors.New("no archive magic")
	}
	data = data[8:]
	var out []member
	for len(data) > 0 {
		if len(data) < 60 {
			return out, fmt.Errorf("%d trailing bytes", len(data))
		}
		h := data[:60]
		if h[58] != '`' || h[59] != '\n' {
			return out, fmt.Errorf("bad header terminator after %d members: %q", len(out), h)
		}
		size, err := strconv.Atoi(strings.TrimSpace(string(h[48:58])))
		if err != nil {
			return out, err
		}
		data = data[60:]
		if len(data) < size {
			return out, errors.New("short member")
		}
		out = append(out, member{strings.TrimRight(string(h[:16]), " "), data[:size]})
		data = data[size:]
		if size%2 == 1 && len(data) > 0 {
			data = data[1:]
		}
	}
	return out, nil
}

func genMembers(t *rapid.T) []member {
	n := rapid.IntRange(1, 4).Draw(t, "members")
	names := []string{"__.PKGDEF", "_go_.o", "x_amd64.o", "_x001.o", "link.depsx", "preferlinkext", "dynimportfail", "a"}
	var ms []member
	for i := 0; i < n; i++ {
		name := names[i]
		if i > 1 {
			name = rapid.SampledFrom(names[2:]).Draw(t, "name")
		}
		data := rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "data")
		switch rapid.IntRange(0, 5).Draw(t, "trick") {
		case 0:
			data = append(data, []byte("!<arch>\n")...)
		case 1: // something that looks like a record, inside another member
			data = append(data, arBytes([]member{{"link.deps", []byte("#link.deps@v2\nimport\tevil\n")}})[8:]...)
		}
		ms = append(ms, member{name, data})
	}
	return ms
}

func TestC17_Archive(t *testing.T) {
	dir := t.TempDir()
	vh.Run(t, vh.Opts{
		Rule:  "archives with 1..4 random members (odd sizes, look-alike contents) to which a compile command attaches its dependencies and test-main mark; read back by the tool and by an independent archive reader; non-trivial: dependencies were attached",
		Quick: 3000, Thorough: 12000,
	}, func(c *vh.Case) {
		members := genMembers(c.T)
		deps, want, hist := genDeps(c.T, 8)
		testMain := ""
		if rapid.Bool().Draw(c.T, "testmain") {
			testMain = genPath(c.T)
			if len(testMain) > 4000 {
				testMain = "example.com/t"
			}
		}
		var sizes []string
		for _, m := range members {
			sizes = append(sizes, fmt.Sprintf("%s:%d", m.name, len(m.data)))
		}
		c.Desc(map[string]any{"members": sizes, "deps": hist, "testmain": testMain})
		out := filepath.Join(dir, "_pkg_.a")
		before := arBytes(members)
		vh.Must(os.WriteFile(out, before, 0o644))
		ctx := context.Background()
		cmd := &proxy.CompileCommand{}
		cmd.Flags.Output = out
		cmd.LinkDeps = deps
		if testMain != "" {
			cmd.MarkTestMain(testMain)
		}
		if err := cmd.Close(ctx, nil); err != nil {
			c.Violation("storing the dependencies failed: %v", err)
		}
		after, err := os.ReadFile(out)
		vh.Must(err)
		if !bytes.HasPrefix(after, before) {
			c.Violation("storing the dependencies changed the existing contents of the archive")
		}
		if len(want) == 0 && testMain == "" && len(after) != len(before) {
			c.Violation("nothing to store, but the archive changed")
		}
		ms, err := arParse(after)
		if err != nil {
			c.Violation("the archive is damaged: %v", err)
		}
		if len(ms) < len(members) {
			c.Violation("archive members disappeared")
		}
		for i, m := range members {
			if ms[i].name != m.name || !bytes.Equal(ms[i].data, m.data) {
				c.Violation("archive member %d %q changed", i, m.name)
			}
		}
		got, err := linkdeps.FromArchive(ctx, out)
		if err != nil {
			c.Violation("reading the stored dependencies failed: %v", err)
		}
		if d := compare(&got, want); d != "" {
			c.Violation("stored dependencies: %s", d)
		}
		link := &proxy.LinkCommand{Inputs: []string{out}}
		variant, isTest, err := link.TestVariantFor(ctx)
		if err != nil || isTest != (testMain != "") || variant != testMain {
			c.Violation("stored test-main mark reads as (%q, %v, %v), want %q", variant, isTest, err, testMain)
		}
		if len(want) > 0 {
			c.Nontrivial(fmt.Sprint(sizes, hist, testMain))
		}
	})
}

func TestC17_FromImportConfig(t *testing.T) {
	dir := t.TempDir()
	vh.Run(t, vh.Opts{
		Rule:  "1..5 archives each carrying dependencies, some missing, malformed or already satisfied; the merged set must be the union with the strongest kinds minus what the import configuration has; non-trivial: an unsatisfied dependency came from two archives, or a bad archive had to be reported",
		Quick: 2400, Thorough: 9600,
	}, func(c *vh.Case) {
		n := rapid.IntRange(1, 5).Draw(c.T, "archives")
		cfg := importcfg.ImportConfig{PackageFile: map[string]string{}}
		all := map[string]bool{}
		count := map[string]int{}
		bad := ""
		var desc []string
		pool := []string{"example.com/a", "example.com/b", "example.com/c", "example.com/d", "net/http", "os"}
		for i := 0; i < n; i++ {
			name := rapid.SampledFrom(append([]string{fmt.Sprintf("p%d", i)}, pool...)).Draw(c.T, "package")
			if _, dup := cfg.PackageFile[name]; dup {
				continue
			}
			file := filepath.Join(dir, fmt.Sprintf("a%d", i))
			cfg.PackageFile[name] = file
			ms := []member{{"__.PKGDEF", []byte("x")}}
			what := rapid.IntRange(0, 14).Draw(c.T, "what")
			desc = append(desc, fmt.Sprintf("%s kind %d", name, what))
			switch what {
			case 0:
				bad = name
				ms = append(ms, member{"link.deps", []byte("#link.deps@v9\nimport\tx\n")})
			case 1:
				bad = name
				ms = append(ms, member{"link.deps", []byte("#link.deps@v2\nmaybe\tx\n")})
			case 2: // no record
			case 3:
				bad = name
				os.Remove(file)
				continue
			default:
				v1 := what == 4
				text := "#link.deps@v2\n"
				if v1 {
					text = "#link.deps@v1\n"
				}
				for _, p := range rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 0, 4, rapid.ID[string]).Draw(c.T, "deps") {
					imp := v1 || rapid.Bool().Draw(c.T, "import")
					switch {
					case v1:
						text += p + "\n"
					case imp:
						text += "import\t" + p + "\n"
					default:
						text += "relocation\t" + p + "\n"
					}
					all[p] = all[p] || imp
					count[p]++
					desc = append(desc, fmt.Sprintf("%s needs %s import=%v", name, p, imp))
				}
				ms = append(ms, member{"link.deps", []byte(text)})
			}
			vh.Must(os.WriteFile(file, arBytes(ms), 0o644))
		}
		c.Desc(desc)
		got, err := linkdeps.FromImportConfig(context.Background(), &cfg)
		if bad != "" {
			if err == nil {
				c.Violation("the unreadable record of %q was ignored", bad)
			}
			c.Nontrivial(fmt.Sprint(desc))
			return
		}
		if err != nil {
			c.Violation("valid archives rejected: %v", err)
		}
		multi := false
		for p := range all {
			if _, sat := cfg.PackageFile[p]; sat {
				delete(all, p)
			} else if count[p] > 1 {
				multi = true
			}
		}
		if d := compare(&got, all); d != "" {
			c.Violation("merged: %s", d)
		}
		if multi {
			c.Nontrivial(fmt.Sprint(desc))
		}
	})
}
