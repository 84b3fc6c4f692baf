package c21

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/xtoproto/rdf/iri"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/irix"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "legal bases with a scheme and legal references of every form, against RFC 3986 5.2 written by segments; non-trivial: a relative reference, or a path with a dot segment; distinct by base and reference")
}

func valid(s string) bool { return irix.Derivable(s) && irix.EscapesUTF8(s) }

func verify(base, ref string) string {
	got := string(iri.IRI(base).ResolveReference(iri.IRI(ref)))
	want, sameDoc := irix.Resolve(base, ref)
	if want.Authority == nil && strings.HasPrefix(want.Path, "//") {
		return "" // the RFC's recomposition is ambiguous here
	}
	if got == want.String() {
		return ""
	}
	if sameDoc {
		// The RFC's target has no fragment; the repository's tests keep the base's.
		want.Fragment = irix.Split(base).Fragment
		if got == want.String() {
			return ""
		}
	}
	return fmt.Sprintf("resolves to %q, want %q", got, want.String())
}

func TestResolve(t *testing.T) {
	pbt.Check(t, 80000, func(t *pbt.T) {
		base, ref := irix.IRI(t.T), irix.Ref(t.T)
		if !valid(base) || !valid(ref) {
			t.T.Skip("not legal")
		}
		r := irix.Split(ref)
		t.Case(r.Scheme == nil || strings.Contains(ref, "/."), fmt.Sprintf("base %q reference %q", base, ref))
		switch {
		case r.Scheme != nil:
			t.Class("absolute")
		case r.Authority != nil:
			t.Class("authority")
		case r.Path == "":
			t.Class("no path")
		case r.Path[0] == '/':
			t.Class("rooted path")
		default:
			t.Class("relative path")
		}
		if d := verify(base, ref); d != "" {
			t.Fatalf("%s", d)
		}
	})
}

// TestLaws checks what must hold without an algorithm at hand.
func TestLaws(t *testing.T) {
	pbt.Check(t, 20000, func(t *pbt.T) {
		base, ref := irix.IRI(t.T), irix.Ref(t.T)
		if !valid(base) || !valid(ref) {
			t.T.Skip("not legal")
		}
		t.Case(true, fmt.Sprintf("base %q reference %q", base, ref))
		p, _ := irix.Resolve(base, ref)
		if p.Authority == nil && strings.HasPrefix(p.Path, "//") {
			return
		}
		got := iri.IRI(base).ResolveReference(iri.IRI(ref))
		if err := got.Check(); err != nil {
			t.Fatalf("target %s is not an IRI: %v", got, err)
		}
		if irix.Split(string(got)).Scheme == nil {
			t.Fatalf("target %s has no scheme", got)
		}
		// A target is absolute, and but for a dot segment that came with the base unchanged it resolves to itself.
		if r := irix.Split(ref); r.Scheme != nil || r.Path != "" {
			other := irix.IRI(t.T)
			if valid(other) {
				if again := iri.IRI(other).ResolveReference(got); again != got {
					t.Fatalf("target %s resolves against %q to %s", got, other, again)
				}
			}
		}
		if d := verify(base, ref); d != "" {
			t.Fatalf("%s", d)
		}
	})
}

// TestAnything: no pair of strings makes resolution panic.
func TestAnything(t *testing.T) {
	pbt.Check(t, 20000, func(t *pbt.T) {
		draw := func(l string) string {
			if gen.Bool(t.T, l+".ref") {
				s := irix.Ref(t.T)
				i := gen.Int(t.T, 0, len(s), "at")
				return s[:i] + gen.Pick(t.T, "ins", "\n", "\xff", ":", "/", "[", " ", "%", "@", "..") + s[i:]
			}
			return gen.Text(t.T, 8, l)
		}
		a, b := draw("base"), draw("ref")
		t.Case(true, fmt.Sprintf("base %q reference %q", a, b))
		_ = iri.IRI(a).ResolveReference(iri.IRI(b))
	})
}

func TestRFC(t *testing.T) {
	base := "http://a/b/c/d;p?q"
	for _, x := range [][2]string{{"g:h", "g:h"}, {"g", "http://a/b/c/g"}, {"./g", "http://a/b/c/g"}, {"g/", "http://a/b/c/g/"}, {"/g", "http://a/g"}, {"//g", "http://g"}, {"?y", "http://a/b/c/d;p?y"},
		{"g?y", "http://a/b/c/g?y"}, {"#s", "http://a/b/c/d;p?q#s"}, {"g#s", "http://a/b/c/g#s"}, {"g?y#s", "http://a/b/c/g?y#s"}, {";x", "http://a/b/c/;x"}, {"g;x", "http://a/b/c/g;x"},
		{"g;x?y#s", "http://a/b/c/g;x?y#s"}, {"", "http://a/b/c/d;p?q"}, {".", "http://a/b/c/"}, {"./", "http://a/b/c/"}, {"..", "http://a/b/"}, {"../", "http://a/b/"}, {"../g", "http://a/b/g"},
		{"../..", "http://a/"}, {"../../", "http://a/"}, {"../../g", "http://a/g"}, {"../../../g", "http://a/g"}, {"../../../../g", "http://a/g"}, {"/./g", "http://a/g"}, {"/../g", "http://a/g"},
		{"g.", "http://a/b/c/g."}, {".g", "http://a/b/c/.g"}, {"g..", "http://a/b/c/g.."}, {"..g", "http://a/b/c/..g"}, {"./../g", "http://a/b/g"}, {"./g/.", "http://a/b/c/g/"}, {"g/./h", "http://a/b/c/g/h"},
		{"g/../h", "http://a/b/c/h"}, {"g;x=1/./y", "http://a/b/c/g;x=1/y"}, {"g;x=1/../y", "http://a/b/c/y"}, {"g?y/./x", "http://a/b/c/g?y/./x"}, {"g?y/../x", "http://a/b/c/g?y/../x"},
		{"g#s/./x", "http://a/b/c/g#s/./x"}, {"g#s/../x", "http://a/b/c/g#s/../x"}, {"http:g", "http:g"}} {
		x := x
		pbt.Regression(t, fmt.Sprintf("%q", x[0]), func() string {
			if p, _ := irix.Resolve(base, x[0]); p.String() != x[1] {
				pbt.Infra("reference resolves %q to %q", x[0], p)
			}
			if got := iri.IRI(base).ResolveReference(iri.IRI(x[0])); string(got) != x[1] {
				return fmt.Sprintf("got %s, want %s", got, x[1])
			}
			return ""
		})
	}
	for _, x := range [][2]string{{"http://h:80/a", "b"}, {"http://h:/a", "b"}, {"file:///a", "b"}, {"http://h/a", "//:80"}, {"http://h/a", "//"}, {"http://h", "urn:a:b"}, {"urn:a", "b"}, {"http://h", "b"},
		{"http://h/a/../b", "#c"}, {"http://h/a/../b", "?c"}, {"http://u:p@h:1/", "x"}, {"http://@h/", "x"}} {
		x := x
		pbt.Regression(t, fmt.Sprintf("%q %q", x[0], x[1]), func() string { return verify(x[0], x[1]) })
	}
}
