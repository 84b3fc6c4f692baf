package c22

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/xtoproto/rdf/iri"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/irix"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "IRI references and arbitrary texts thick with escapes of one to four bytes, whole, cut short and out of order; non-trivial: at least one escape; distinct by text")
}

func text(t *pbt.T) string {
	if gen.OneIn(t.T, 3, "ref") {
		return irix.Ref(t.T)
	}
	var b strings.Builder
	esc := func(c byte) {
		if gen.Bool(t.T, "lower") {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	pieces := gen.Int(t.T, 1, 6, "pieces")
	if gen.OneIn(t.T, 200, "many") {
		pieces = gen.Pick(t.T, "manypieces", 15, 30, 70, 300)
		if gen.Bool(t.T, "run") {
			// One run of escapes, of characters of each length.
			for ; pieces > 0; pieces-- {
				for _, c := range []byte(gen.Pick(t.T, "char", "a", "é", "中", "😀", " ", "\ufffd", "~", "\U000e0001")) {
					esc(c)
				}
			}
			return b.String()
		}
	}
	for n := pieces; n > 0; n-- {
		switch gen.Int(t.T, 0, 6, "piece") {
		case 0:
			b.WriteString(gen.Text(t.T, 3, "raw"))
		case 1:
			esc(byte(gen.Int(t.T, 0, 127, "ascii")))
		case 2:
			r := rune(gen.Int(t.T, 0x80, 0x10ffff, "rune"))
			if r >= 0xd800 && r < 0xe000 {
				r = 'é'
			}
			for _, c := range []byte(string(r)) {
				esc(c)
			}
		case 3:
			for _, c := range []byte(string(gen.Pick(t.T, "edge", append([]rune{0xA0, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFEF, 0x10000, 0x1FFFD, 0xE1000, 0xEFFFD, 0x800, 0x7ff}, irix.NonUcs...)...))) {
				esc(c)
			}
		case 4:
			for _, c := range []byte(gen.Pick(t.T, "cut", "\xc3", "\xa9", "\xe4\xb8", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xff", "\xf0\x9f\x98")) {
				esc(c)
			}
		default:
			b.WriteString(gen.Pick(t.T, "near", "%", "%4", "%zz", "41", "%25", "%2541", "/", "http://a/"))
		}
	}
	return b.String()
}

func TestNormalize(t *testing.T) {
	pbt.Check(t, 300000, func(t *pbt.T) {
		s := text(t)
		has := irix.Decode(s) != s
		t.Case(has, fmt.Sprintf("%q", s))
		got := string(iri.IRI(s).NormalizePercentEncoding())
		if irix.Decode(got) != irix.Decode(s) && irix.Escapes(s) {
			t.Fatalf("normalized to %q, which decodes to other bytes", got)
		}
		want, ok := irix.Normalize(s)
		switch {
		case ok:
			t.Class("UTF-8")
			if got != want {
				t.Fatalf("normalized to %q, want %q", got, want)
			}
		default:
			t.Class("not UTF-8")
		}
		if !irix.Escapes(s) {
			t.Class("stray %")
			return
		}
		if again := string(iri.IRI(got).NormalizePercentEncoding()); again != got {
			t.Fatalf("normalized to %q, and that to %q", got, again)
		}
		if irix.Derivable(s) && ok && iri.IRI(got).Check() != nil {
			t.Fatalf("normalized to %q, which is no IRI", got)
		}
	})
}

func TestRegressions(t *testing.T) {
	for _, s := range []string{"%EF%BF%BD", "%41%EF%BF%BD%42", "%7e%2D", "%2541", "%e2%80%a6", "%C3%A9%20", "%E0%A0%80"} {
		s := s
		pbt.Regression(t, s, func() string {
			want, _ := irix.Normalize(s)
			if got := string(iri.IRI(s).NormalizePercentEncoding()); got != want {
				return fmt.Sprintf("got %q, want %q", got, want)
			}
			return ""
		})
	}
}
