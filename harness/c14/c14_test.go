package c14

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/google/xtoproto/codegen"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "histories of Register, RegisterAliased, FindByImportPath and FindByPackageName over import paths that share their last elements (versions, go- prefixes, _go_proto, numbered names), sequential and concurrent; non-trivial: at least two paths that compete for a name; distinct by history")
}

// pathPool draws import paths whose assumed names collide on purpose: foo, foo2,
// foopb, foo_go_proto, foo/v2, go-foo and so on.
func drawPath(t *pbt.T) string {
	dir := gen.Pick(t.T, "dir", "", "a/", "b/", "a/b/", "github.com/x/", "x.org/y-z/")
	base := gen.Pick(t.T, "base", "foo", "bar", "Foo", "foo2", "foo3", "foo22", "foopb", "foo2pb", "é", "vx", "v2x")
	if gen.OneIn(t.T, 5, "odd") {
		// Names that end early or that no code can use.
		base = gen.Pick(t.T, "oddbase", "foo²", "foo½x", "Ⅷ", "fooⅧ", "foo٣", "٣foo", "2fa", "3", "_", "__", "type", "func", "go", "-foo", ".foo", "+", "_foo", "pkg", "pkg2", "pkgtype", "pkg2fa", "v", "v1", "string", "main", "foo_go_proto_go_proto", "foo\u0301")
	}
	switch gen.Int(t.T, 0, 7, "form") {
	case 0:
		base = "go-" + base
	case 1:
		base += "_go_proto"
	case 2:
		base += gen.Pick(t.T, "suffix", ".v1", "-go", "+x", "~")
	case 3:
		base += "/v" + strconv.Itoa(gen.Int(t.T, 0, 12, "v"))
	}
	if gen.OneIn(t.T, 8, "respelled") {
		// Another path, although a cleaned one would be the same.
		dir += gen.Pick(t.T, "respelling", "./", "../", "x/../", "/", "A/", "a/")
	}
	return dir + base
}

func ident(s string) bool { return token.IsIdentifier(s) && s != "_" }

type binding struct{ path, name string }

// checkBlock puts the imports in one Go file and reads it back.
func checkBlock(ims []*codegen.Import) string {
	var b strings.Builder
	b.WriteString("package p\nimport (\n")
	for _, im := range ims {
		b.WriteString("\t" + im.GoFragment() + "\n")
	}
	b.WriteString(")\n")
	f, err := parser.ParseFile(token.NewFileSet(), "p.go", b.String(), parser.ImportsOnly)
	if err != nil {
		return fmt.Sprintf("import block does not parse: %v\n%s", err, b.String())
	}
	if len(f.Imports) != len(ims) {
		return fmt.Sprintf("import block has %d imports, want %d\n%s", len(f.Imports), len(ims), b.String())
	}
	for i, s := range f.Imports {
		p, err := strconv.Unquote(s.Path.Value)
		if err != nil || p != ims[i].Path() {
			return fmt.Sprintf("import %s has path %s, want %q", ims[i].GoFragment(), s.Path.Value, ims[i].Path())
		}
		if got := alias(s); got != ims[i].Alias() {
			return fmt.Sprintf("import %s has alias %q, want %q", ims[i].GoFragment(), got, ims[i].Alias())
		}
	}
	return ""
}

func alias(s *ast.ImportSpec) string {
	if s.Name == nil {
		return ""
	}
	return s.Name.Name
}

func same(a, b *codegen.Import) bool {
	return a != nil && b != nil && a.Path() == b.Path() && a.PackageName() == b.PackageName() && a.Alias() == b.Alias()
}

// checkImport checks one import for itself.
func checkImport(im *codegen.Import, ims *codegen.Imports, path string) string {
	switch {
	case im == nil:
		return fmt.Sprintf("no import for %q", path)
	case im.Path() != path:
		return fmt.Sprintf("import of %q has path %q", path, im.Path())
	case im.Alias() != "" && im.Alias() != im.PackageName():
		return fmt.Sprintf("alias %q is not the package name %q", im.Alias(), im.PackageName())
	case im.Alias() == "" && im.PackageName() != ims.AssumedPackageName(path):
		return fmt.Sprintf("import of %q without alias is named %q, but the package is assumed to be %q", path, im.PackageName(), ims.AssumedPackageName(path))
	}
	return ""
}

func describe(im *codegen.Import) string {
	if im == nil {
		return "nil"
	}
	return im.GoFragment() + "(" + im.PackageName() + ")"
}

func customName(path string) string {
	return []string{"n0", "n1", "n2", "2n", "", "func", "_", "a b", "n.1"}[len(path)%9]
}

// Many paths that all want the same few names.
func TestMany(t *testing.T) {
	pbt.Check(t, 150, func(t *pbt.T) {
		base := gen.Pick(t.T, "base", "foo", "foo_go_proto", "go-foo", "foo/v2", "foo.v1", "foo2")
		n := gen.Int(t.T, 20, 300, "paths")
		if gen.OneIn(t.T, 50, "verymany") {
			n = 510
		}
		numbered := gen.Bool(t.T, "numbered")
		t.Case(true, fmt.Sprintf("%s %d %v", base, n, numbered))
		ims := codegen.NewImports()
		owner := map[string]string{}
		var all []*codegen.Import
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("d%d/%s", i, base)
			if numbered && i%3 == 1 {
				p = fmt.Sprintf("d%d/foo%d", i, i/2)
			}
			im := ims.Register(p)
			if msg := checkImport(im, ims, p); msg != "" {
				t.Fatalf("path %d: %s", i, msg)
			}
			nm := im.PackageName()
			if q, ok := owner[nm]; ok || !ident(nm) {
				t.Fatalf("path %d: Register(%q) gives %s; the name belongs to %q", i, p, describe(im), q)
			}
			owner[nm] = p
			all = append(all, im)
		}
		for i, im := range all {
			if again := ims.Register(im.Path()); !same(again, im) {
				t.Fatalf("path %d: Register gives %s, then %s", i, describe(im), describe(again))
			}
			if f := ims.FindByImportPath(im.Path()); !same(f, im) {
				t.Fatalf("path %d: registered %s, found %s", i, describe(im), describe(f))
			}
			if f := ims.FindByPackageName(im.PackageName()); !same(f, im) {
				t.Fatalf("name %s: registered %s, found %s", im.PackageName(), describe(im), describe(f))
			}
		}
		if msg := checkBlock(all); msg != "" {
			t.Fatalf("%s", msg)
		}
	})
}

func TestHistory(t *testing.T) {
	pbt.Check(t, 8000, func(t *pbt.T) {
		var paths []string
		for i, n := 0, gen.Int(t.T, 1, 8, "paths"); i < n; i++ {
			paths = append(paths, drawPath(t))
		}
		var opts []codegen.ImportsOption
		custom := gen.OneIn(t.T, 4, "custom")
		if custom {
			opts = append(opts, codegen.UseAssumedPackageNameFunc(customName))
		}
		var near []string // asked for, never registered unless drawn above too
		for _, p := range paths[:1] {
			near = append(near, p+"/", "./"+p, "/"+p, strings.ToUpper(p), strings.TrimPrefix(p, "a/"), strings.ReplaceAll(p, "/", "//"))
		}
		ims := codegen.NewImports(opts...)
		other := codegen.NewImports(opts...)
		var log []string
		type model struct {
			im *codegen.Import
		}
		var defs []*codegen.Import // in order of first registration
		names := map[string]string{}
		competing := false
		assumed := map[string]string{}
		for _, p := range paths {
			a := ims.AssumedPackageName(p)
			if custom && a != customName(p) {
				t.Fatalf("assumed name of %q is %q, but the given function says %q", p, a, customName(p))
			}
			if q, ok := assumed[a]; ok && q != p {
				competing = true
			}
			assumed[a] = p
		}
		add := func(im *codegen.Import) {
			for _, d := range defs {
				if same(d, im) {
					return
				}
			}
			n := im.PackageName()
			if n != "_" {
				if p, ok := names[n]; ok && p != im.Path() {
					t.Fatalf("%s: name %q now belongs to %q and %q", strings.Join(log, "\n"), n, p, im.Path())
				}
				names[n] = im.Path()
			}
			defs = append(defs, im)
		}
		named := func(path string) *codegen.Import {
			for _, d := range defs {
				if d.Path() == path && ident(d.PackageName()) {
					return d
				}
			}
			return nil
		}
		n := gen.Int(t.T, 1, 25, "ops")
		for i := 0; i < n; i++ {
			path := gen.Pick(t.T, "path", paths...)
			switch gen.Int(t.T, 0, 6, "op") {
			case 0, 1, 2:
				im := ims.Register(path)
				log = append(log, fmt.Sprintf("Register(%q) = %s", path, describe(im)))
				t.Case(competing, strings.Join(log, "\n"))
				if msg := checkImport(im, ims, path); msg != "" {
					t.Fatalf("%s", msg)
				}
				if !ident(im.PackageName()) {
					t.Fatalf("Register(%q) gives the unusable name %q", path, im.PackageName())
				}
				if had := named(path); had != nil && !same(had, im) {
					t.Fatalf("Register(%q) gives %s, but it was registered as %s", path, describe(im), describe(had))
				}
				add(im)
			case 3, 4:
				al := gen.Pick(t.T, "alias", "_", "_", "foo", "bar", "foo2", "foopb", "n0", "n1", "zed", ".", "é", "", "_foo", "__", "_2", "pkg", "pkg2")
				im, err := ims.RegisterAliased(path, al)
				log = append(log, fmt.Sprintf("RegisterAliased(%q, %q) = %s, %v", path, al, describe(im), err))
				t.Case(competing, strings.Join(log, "\n"))
				owner, taken := names[al]
				refuse := al == "" || taken && owner != path
				if (err != nil) != refuse {
					t.Fatalf("RegisterAliased(%q, %q): %v; the name belongs to %q", path, al, err, owner)
				}
				if err != nil {
					t.Class("refused")
					break
				}
				if msg := checkImport(im, ims, path); msg != "" {
					t.Fatalf("%s", msg)
				}
				if im.PackageName() != al {
					t.Fatalf("RegisterAliased(%q, %q) gives %s", path, al, describe(im))
				}
				add(im)
			case 5:
				if gen.Bool(t.T, "other") {
					path = gen.Lookalike(t.T, path, "otherpath")
				}
				im := ims.FindByImportPath(path)
				log = append(log, fmt.Sprintf("FindByImportPath(%q) = %s", path, describe(im)))
			default:
				name := gen.Pick(t.T, "name", "foo", "foo2", "bar", "zed", "foopb", "n1", "_")
				im := ims.FindByPackageName(name)
				log = append(log, fmt.Sprintf("FindByPackageName(%q) = %s", name, describe(im)))
			}
			// Look-ups, by every path and every name.
			t.Case(competing, strings.Join(log, "\n"))
			for _, p := range append(near, paths...) {
				im := ims.FindByImportPath(p)
				found, any := false, false
				for _, d := range defs {
					any = any || d.Path() == p
					found = found || d.Path() == p && same(d, im)
				}
				if any != (im != nil) || any && !found {
					t.Fatalf("FindByImportPath(%q) = %s", p, describe(im))
				}
			}
			for _, nm := range []string{"foo", "foo2", "foo22", "bar", "zed", "foopb", "foo2pb", "n0", "n1", "n2", "n12", "."} {
				im := ims.FindByPackageName(nm)
				p, ok := names[nm]
				if ok != (im != nil) || ok && (im.Path() != p || im.PackageName() != nm) {
					t.Fatalf("FindByPackageName(%q) = %s; it belongs to %q", nm, describe(im), p)
				}
			}
			for nm, p := range names {
				im := ims.FindByPackageName(nm)
				if im == nil || im.Path() != p || im.PackageName() != nm {
					t.Fatalf("FindByPackageName(%q) = %s; it belongs to %q", nm, describe(im), p)
				}
			}
			if im := other.FindByImportPath(path); im != nil {
				t.Fatalf("another Imports value has %s", describe(im))
			}
		}
		if msg := checkBlock(defs); msg != "" {
			t.Fatalf("%s", msg)
		}
	})
}

// Registrations from several goroutines. (Run under the race detector.)
func TestConcurrent(t *testing.T) {
	pbt.Check(t, 1500, func(t *pbt.T) {
		var paths []string
		for i, n := 0, gen.Int(t.T, 2, 6, "paths"); i < n; i++ {
			paths = append(paths, drawPath(t))
		}
		ims := codegen.NewImports()
		type op struct {
			path, alias string
		}
		ng := gen.Int(t.T, 2, 5, "goroutines")
		aliased := gen.OneIn(t.T, 3, "aliased")
		plans := make([][]op, ng)
		for g := range plans {
			for i, n := 0, gen.Int(t.T, 1, 8, "ops"); i < n; i++ {
				o := op{path: gen.Pick(t.T, "path", paths...)}
				if aliased && gen.OneIn(t.T, 3, "alias?") {
					o.alias = gen.Pick(t.T, "alias", "foo", "bar", "foo2", "_", "z")
				}
				plans[g] = append(plans[g], o)
			}
		}
		t.Case(true, fmt.Sprintf("%v", plans))
		results := make([][]*codegen.Import, ng)
		panics := make([]string, ng)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						panics[g] = fmt.Sprint(r)
					}
				}()
				<-start
				for _, o := range plans[g] {
					var im *codegen.Import
					if o.alias == "" {
						im = ims.Register(o.path)
					} else {
						im, _ = ims.RegisterAliased(o.path, o.alias)
					}
					ims.FindByImportPath(o.path)
					ims.FindByPackageName("foo")
					results[g] = append(results[g], im)
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for _, p := range panics {
			if p != "" {
				t.Fatalf("panic: %s", p)
			}
		}
		owner, name := map[string]string{}, map[string]string{}
		for g := range plans {
			for i, o := range plans[g] {
				im := results[g][i]
				if im == nil {
					if o.alias == "" {
						t.Fatalf("Register(%q) gives nil", o.path)
					}
					continue // refused: another path has the name
				}
				if msg := checkImport(im, ims, o.path); msg != "" {
					t.Fatalf("%s", msg)
				}
				n := im.PackageName()
				if o.alias == "" && !ident(n) {
					t.Fatalf("Register(%q) gives the unusable name %q", o.path, n)
				}
				if n == "_" {
					continue
				}
				if p, ok := owner[n]; ok && p != o.path {
					t.Fatalf("name %q belongs to %q and %q", n, p, o.path)
				}
				owner[n] = o.path
				if f := ims.FindByPackageName(n); f == nil || f.Path() != o.path {
					t.Fatalf("name %q was given to %q but belongs to %s", n, o.path, describe(f))
				}
				if !aliased {
					if m, ok := name[o.path]; ok && m != n {
						t.Fatalf("path %q is named %q and %q", o.path, m, n)
					}
					name[o.path] = n
				}
			}
		}
	})
}

// The documented assumption about the name of a package.
func TestAssumedName(t *testing.T) {
	pbt.Check(t, 4000, func(t *pbt.T) {
		id := rapidIdent(t)
		dir := gen.Pick(t.T, "dir", "", "a/", "b.c/d/", "v2/", "go-x/")
		tail := ""
		if gen.Bool(t.T, "tail") {
			tail = gen.Pick(t.T, "sep", "-", ".", "+", "~", "😊") + gen.Line(t.T, 4, "tail")
			tail = strings.ReplaceAll(tail, "/", "x")
		}
		pre := gen.Pick(t.T, "pre", "", "go-")
		ver := ""
		if gen.OneIn(t.T, 3, "version") {
			ver = "/v" + strconv.Itoa(gen.Int(t.T, 0, 100, "v"))
		}
		p := dir + pre + id + tail + ver
		t.Case(tail != "" || ver != "", p)
		if got := codegen.GoToolsAssumedPackageName(p); got != id {
			t.Fatalf("assumed name of %q is %q, want %q", p, got, id)
		}
		if got := codegen.NewImports().AssumedPackageName(p); got != id {
			t.Fatalf("Imports: assumed name of %q is %q, want %q", p, got, id)
		}
	})
}

func rapidIdent(t *pbt.T) string {
	for {
		s := gen.Pick(t.T, "first", "a", "Z", "é", "v", "_q") + strings.Map(func(r rune) rune {
			if token.IsIdentifier("a" + string(r)) {
				return r
			}
			return 'x'
		}, gen.Text(t.T, 5, "rest"))
		if !strings.HasPrefix(s, "v") || strings.IndexFunc(s[1:], func(r rune) bool { return r < '0' || r > '9' }) >= 0 {
			return s
		}
	}
}

func TestFixed(t *testing.T) {
	pbt.Regression(t, "register_after_blank", func() string {
		for _, al := range []string{"_", "."} {
			ims := codegen.NewImports()
			if _, err := ims.RegisterAliased("a/foo", al); err != nil {
				return err.Error()
			}
			if im := ims.Register("a/foo"); im.PackageName() != "foo" {
				return fmt.Sprintf("after %s, Register gives %s", al, describe(im))
			}
		}
		return ""
	})
}
