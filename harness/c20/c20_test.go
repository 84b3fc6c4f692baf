package c20

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/google/xtoproto/rdf/iri"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/irix"
	"github.com/google/xtoproto/verifharness/pbt"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "references derived from the RFC 3987 grammar, the same with one or two characters changed, and arbitrary texts, against a hand-written recognizer; non-trivial: a character other than letters, digits and the plain delimiters, or a rejected text; distinct by text")
}

func mutate(t *pbt.T, s string) string {
	for k := gen.Int(t.T, 1, 2, "faults"); k > 0; k-- {
		i := gen.Int(t.T, 0, len(s), "at")
		j := min(len(s), i+gen.Int(t.T, 0, 2, "del"))
		ins := ""
		switch gen.Int(t.T, 0, 3, "ins") {
		case 0:
			ins = gen.Pick(t.T, "char", strings.Split(":/?#[]@%!$&'()*+,;= \"<>\\^`{|}~\n\r\t\x00\x7f-._vV109af", "")...)
		case 1:
			ins = string(gen.Pick(t.T, "rune", irix.NonUcs...))
		case 2:
			ins = gen.Pick(t.T, "odd", "%", "%4", "%G1", "%41", "\xff", "\xc3", "%ff", "%EF%BF%BD", "%c3", "%a9", "//", "::", "[::]", "[", "]")
		}
		s = s[:i] + ins + s[j:]
	}
	return s
}

func text(t *pbt.T) string {
	if gen.OneIn(t.T, 2500, "long") {
		// A long reference, perhaps with a fault near its end.
		s := irix.Ref(t.T) + strings.Repeat(gen.Pick(t.T, "piece", "a", "/a", "é", "%C3%A9", "%20", "a:", "..;/", "中"), gen.Pick(t.T, "times", 33, 130, 257, 1030, 2100, 2100, 5000))
		if gen.Bool(t.T, "fault") {
			i := max(0, len(s)-gen.Int(t.T, 0, 5, "back"))
			s = s[:i] + gen.Pick(t.T, "bad", " ", "\"", "<", "[", "%", "%C3", "\xff", "\n", "\\", "{", "^") + s[i:]
		}
		return s
	}
	switch gen.Int(t.T, 0, 7, "shape") {
	case 0, 1, 2:
		return irix.Ref(t.T)
	case 3, 4, 5:
		return mutate(t, irix.Ref(t.T))
	case 6:
		return rapid.StringMatching(`[a-z0-9:/?#\[\]@!%. <"{é-]{0,12}`).Draw(t.T, "soup")
	}
	return gen.Text(t.T, 8, "text")
}

func plain(s string) bool {
	for _, r := range s {
		if !(r < 128 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune(":/?#.", r))) {
			return false
		}
	}
	return true
}

func verify(s string) string {
	got, err := iri.Parse(s)
	cerr := iri.IRI(s).Check()
	if (cerr == nil) != (err == nil) {
		return fmt.Sprintf("Parse says %v, Check says %v", err, cerr)
	}
	want := irix.Derivable(s) && irix.EscapesUTF8(s)
	if want && err != nil {
		return fmt.Sprintf("rejected, though the grammar derives it: %v", err)
	}
	if !want && err == nil {
		return "accepted, though the grammar does not derive it"
	}
	if err == nil {
		if string(got) != s {
			return fmt.Sprintf("parsed as %q", string(got))
		}
		if got.String() != "<"+s+">" {
			return fmt.Sprintf("printed as %q", got.String())
		}
	} else if err.Error() == "" || got != "" {
		return fmt.Sprintf("rejected with %q and value %q", err, string(got))
	}
	return ""
}

func TestParse(t *testing.T) {
	pbt.Check(t, 240000, func(t *pbt.T) {
		s := text(t)
		ok := irix.Derivable(s) && irix.EscapesUTF8(s)
		t.Case(!ok || !plain(s), fmt.Sprintf("%q", s))
		if ok {
			t.Class("accepted")
		} else if !utf8.ValidString(s) {
			t.Class("rejected: not UTF-8")
		} else if irix.Derivable(s) {
			t.Class("rejected: escapes are not UTF-8")
		} else {
			t.Class("rejected")
		}
		if d := verify(s); d != "" {
			t.Fatalf("%s", d)
		}
	})
}

// TestCharacters puts every boundary character, and random ones, into each
// component.
func TestCharacters(t *testing.T) {
	pbt.Check(t, 80000, func(t *pbt.T) {
		var r rune
		switch gen.Int(t.T, 0, 2, "kind") {
		case 0:
			r = rune(gen.Int(t.T, 0, 0x17f, "low"))
		case 1:
			plane := rune(gen.Int(t.T, 0, 16, "plane")) << 16
			r = plane + gen.Pick(t.T, "edge", rune(0), 0xFFFD, 0xFFFE, 0xFFFF, 0x1000, 0xFFF, 0xA0, 0x9F, 0xD7FF, 0xE000, 0xF8FF, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFEF, 0xFFF0)
		default:
			r = rune(gen.Int(t.T, 0, 0x10ffff, "any"))
		}
		if r >= 0xd800 && r < 0xe000 {
			r = 0xd7ff
		}
		f := gen.Pick(t.T, "place", "%c:x", "a%c:x", "//%c@h", "//%c", "//h%cx", "//h:%c", "/%c", "%c", "%c/b", "a:%c", "?%c", "#%c", "//[%c]", "//[v1.%c]", "//[v%c.a]", "//[::%c]", "%%4%c", "x%c%%41", "1.2.3%c4", "//1.2.3%c4")
		s := fmt.Sprintf(f, r)
		t.Case(true, fmt.Sprintf("%q", s))
		if d := verify(s); d != "" {
			t.Fatalf("%s", d)
		}
	})
}

func TestRegressions(t *testing.T) {
	for _, s := range []string{"http://a#b\n c", "http://a?b?c/d", "http://a?\U00100000", "http://a:b@c", "//1<2<3<4", "http://[::1]/", "http://[1:2:3:4:5:6:7::]", "http://[v1F.a:b]", "http://[v1.]",
		":a", "1:b", "a/b:c", "http://a/%EF%BF%BD", "http://[1:2:3:4:5:6:1.2.3.4]", "http://[1.2.3.4::]", "http://[12345::]", "", "#", "?", "//", "///", "a:", "%", "http://a:8x/"} {
		s := s
		pbt.Regression(t, fmt.Sprintf("%q", s), func() string { return verify(s) })
	}
}
