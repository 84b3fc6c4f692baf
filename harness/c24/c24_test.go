package c24

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/xtoproto/rdf/ntriples"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/nt"
	"github.com/google/xtoproto/verifharness/pbt"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "lines derived from the N-Triples grammar, the same with a few characters changed, boundary characters at each place, and soups of tokens, against a hand-written recognizer; documents of such lines; non-trivial: the line is neither empty nor plain ASCII with nothing escaped, or it is rejected; distinct by text")
}

var tokens = []string{"<", ">", `"`, `\`, "_:", "_", ":", ".", "..", " ", "\t", "#", "^^", "^", "@", "@en", "-", `\u0020`, `\u00e9`, `\U0001F600`, `\UFFFFFFFF`, `\U00110000`, `\ud800`, `\u12`, `\n`, `\x`, "\n", "\r", "\x00", "\xff", "a", "<x>", "<x:y>", "<http://a>", `"s"`, "_:b", "é", "%41", "%zz", "\u200c", "\u00b7", "\uffff", "\v", "\u00a0", "'", "{", "|", "`", ";", ",", "a:b"}

func mutate(t *pbt.T, s string) string {
	for k := gen.Int(t.T, 1, 2, "faults"); k > 0; k-- {
		i := gen.Int(t.T, 0, len(s), "at")
		j := min(len(s), i+gen.Int(t.T, 0, 2, "del"))
		ins := ""
		if gen.Int(t.T, 0, 3, "ins") > 0 {
			ins = gen.Pick(t.T, "token", tokens...)
		}
		s = s[:i] + ins + s[j:]
	}
	return s
}

// misplaced makes a line of well-formed terms in the wrong places or numbers.
func misplaced(t *pbt.T) string {
	var p []string
	for k := gen.Int(t.T, 0, 5, "terms"); k > 0; k-- {
		switch gen.Int(t.T, 0, 5, "term") {
		case 0:
			p = append(p, ".")
		case 1:
			p = append(p, gen.Pick(t.T, "token", tokens...))
		default:
			p = append(p, nt.Spell(t.T, nt.Object(t.T, "o")))
		}
	}
	return strings.Join(p, gen.Pick(t.T, "sep", " ", "", "\t")) + gen.Pick(t.T, "end", " .", ".", "")
}

// line draws a line of any kind, now and then a very long one.
func line(t *pbt.T) string {
	s := short(t)
	if gen.OneIn(t.T, 100, "long") {
		i := gen.Int(t.T, 0, len(s), "at")
		s = s[:i] + strings.Repeat(gen.Pick(t.T, "pad", "a", " ", "é", "\\u00e9", "%C3%A9", "."), gen.Pick(t.T, "times", 300, 1100, 4100, 9000, 66000)) + s[i:]
		if gen.OneIn(t.T, 3, "longfault") {
			s = mutate(t, s)
		}
	}
	return s
}

func short(t *pbt.T) string {
	switch gen.Int(t.T, 0, 9, "shape") {
	case 0, 1, 2:
		return nt.SpellLine(t.T, nt.Random(t.T, "t"))
	case 3, 4, 5:
		return mutate(t, nt.SpellLine(t.T, nt.Random(t.T, "t")))
	case 6:
		return gen.Pick(t.T, "lead", "", " ", "\t ") + "#" + nt.CommentText(t.T)
	case 7:
		return misplaced(t)
	case 8:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(tokens), 0, 10).Draw(t.T, "soup"), "")
	}
	return gen.Pick(t.T, "blank", "", " ", "\t", " \t ") + gen.Text(t.T, 8, "text")
}

func verify(s string) string {
	r := nt.Parse(s)
	tr, c, err := ntriples.ParseLine(s)
	if err != nil && (tr != nil || c != nil || err.Error() == "") {
		return fmt.Sprintf("rejected with %q and also triple %v, comment %v", err, tr, c)
	}
	if err == nil && tr != nil && c != nil {
		return "read as both a triple and a comment"
	}
	if r.Undecided || r.Blank {
		return ""
	}
	if r.OK != (err == nil) {
		if err == nil {
			return fmt.Sprintf("accepted, though the grammar does not derive it (%s)", r.Why)
		}
		return fmt.Sprintf("rejected, though the grammar derives it: %v", err)
	}
	if err != nil {
		return ""
	}
	if r.Comment != nil {
		if c == nil {
			return "a comment was not read as one"
		}
		if c.Contents() != *r.Comment || c.Line() != "#"+*r.Comment {
			return fmt.Sprintf("comment %q, line %q; want %q", c.Contents(), c.Line(), *r.Comment)
		}
		return ""
	}
	if tr == nil {
		return "no triple was read"
	}
	m, bad := nt.Of(tr)
	if bad != "" {
		return bad
	}
	if m != *r.Triple {
		return fmt.Sprintf("read as %s, want %s", nt.Show(&m), nt.Show(r.Triple))
	}
	return ""
}

func class(t *pbt.T, s string) {
	r := nt.Parse(s)
	plain := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 || s[i] < 32 || s[i] == '\\' {
			plain = false
		}
	}
	t.Case(!r.OK || !plain && !r.Blank, fmt.Sprintf("%q", s))
	switch {
	case r.Undecided:
		t.Class("undecided by the specification")
	case r.Blank:
		t.Class("blank")
	case r.Comment != nil:
		t.Class("comment")
	case r.OK:
		t.Class("triple")
	default:
		t.Class("rejected: " + r.Why)
	}
}

func TestLine(t *testing.T) {
	pbt.Check(t, 60000, func(t *pbt.T) {
		s := line(t)
		class(t, s)
		if d := verify(s); d != "" {
			t.Fatalf("%q: %s", s, d)
		}
	}, pbt.MustTerminate())
}

// TestCharacters puts a boundary character, raw or escaped, at each place of
// a line.
func TestCharacters(t *testing.T) {
	templates := []string{"_:%s <x:p> _:o .", "_:a%s <x:p> _:o .", "_:a%sb <x:p> _:o .", "<x:%s> <x:p> <x:o> .", "<x:a> <x:%s> <x:o> .", "<x:a> <x:p> <x:%s> .", "<x:a> <x:p> _:%s .", "<x:a> <x:p> _:b%s.", `<x:a> <x:p> "%s" .`, `<x:a> <x:p> "a"@e%s .`, `<x:a> <x:p> "a"@en-%s .`, `<x:a> <x:p> "a"^^<x:%s> .`, "<%sx:a> <x:p> <x:o> .", "<x%s:a> <x:p> <x:o> .", "%s<x:a> <x:p> <x:o> .", "<x:a>%s<x:p> <x:o> .", "<x:a> <x:p>%s<x:o> .", "<x:a> <x:p> <x:o>%s.", "<x:a> <x:p> <x:o> .%s", "<x:a> <x:p> <x:o> . #%s", "#%s"}
	pbt.Check(t, 60000, func(t *pbt.T) {
		r := nt.AnyRune(t.T, "char")
		c := string(r)
		switch gen.Int(t.T, 0, 4, "escape") {
		case 3:
			if r < 0x10000 {
				c = fmt.Sprintf(`\u%04X`, r)
			} else {
				c = fmt.Sprintf(`\U%08x`, r)
			}
		case 4:
			c = gen.Pick(t.T, "bad", `\U00110000`, `\uD800`, `\uDFFF`, `\UFFFFFFFF`, `\U0000D800`, `\a`, `\u`, `\u00`, "\xff", "\xed\xa0\x80", `\`, `\t`, `\'`, `\"`, `\\`, `\U0010FFFF`, `\ud7ff`, `\uE000`)
		}
		s := strings.Replace(gen.Pick(t.T, "template", templates...), "%s", c, 1)
		class(t, s)
		if d := verify(s); d != "" {
			t.Fatalf("%q: %s", s, d)
		}
	})
}

func TestDocument(t *testing.T) {
	pbt.Check(t, 10000, func(t *pbt.T) {
		n := gen.Int(t.T, 0, 8, "lines")
		faults := gen.OneIn(t.T, 2, "faults")
		var lines []string
		var want []nt.Triple
		bad := 0
		for i := 0; i < n; i++ {
			var l string
			switch k := gen.Int(t.T, 0, 6, "line"); {
			case k == 0:
				l = gen.Pick(t.T, "blank", "", " ", "\t\t", "#", "# x", "  # <x:a> <x:p> <x:o> .")
			case k == 1 && faults:
				l = line(t)
				if r := nt.Parse(l); r.Undecided {
					l = "<x:a> <x:p> ."
				}
			default:
				l = nt.SpellLine(t.T, nt.Random(t.T, "t"))
			}
			lines = append(lines, l)
			r := nt.Parse(l)
			if r.Triple != nil && bad == 0 {
				want = append(want, *r.Triple)
			} else if !r.OK && bad == 0 {
				bad = i + 1
			}
		}
		t.Case(len(want) > 1 || bad > 0, fmt.Sprintf("%q", lines))
		in := append([]string(nil), lines...)
		got, err := ntriples.ParseLines(in)
		for i := range in {
			if in[i] != lines[i] {
				t.Fatalf("the input was modified")
			}
		}
		if bad > 0 {
			t.Class("rejected")
			if err == nil {
				t.Fatalf("%q accepted, though line %d is wrong", lines, bad)
			}
			if !strings.Contains(err.Error(), fmt.Sprint(bad)) {
				t.Fatalf("line %d of %q is wrong; the error does not name it: %v", bad, lines, err)
			}
			if len(got) != 0 {
				t.Fatalf("triples and an error: %v, %v", got, err)
			}
			return
		}
		t.Class("accepted")
		if err != nil {
			t.Fatalf("%q rejected: %v", lines, err)
		}
		if len(got) != len(want) {
			t.Fatalf("%q: %d triples, want %d", lines, len(got), len(want))
		}
		for i := range got {
			if m, b := nt.Of(got[i]); b != "" || m != want[i] {
				t.Fatalf("triple %d of %q is %s %s", i, lines, nt.Show(&m), b)
			}
		}
	})
}

// TestLiteral runs ParseLiteral on arbitrary text.
func TestLiteral(t *testing.T) {
	pbt.Check(t, 20000, func(t *pbt.T) {
		s := nt.Spell(t.T, nt.LiteralTerm(t.T, "l"))
		if gen.Int(t.T, 0, 3, "mutate") > 0 {
			s = mutate(t, s)
		}
		// The text is a literal alone iff it is one as the object of a line.
		r := nt.Parse("<x:a> <x:p> " + s + " .")
		l, rest, err := ntriples.ParseLiteral(s)
		alone := r.OK && !r.Undecided && r.Triple.O.Kind == 'L' && !strings.Contains(s, "#")
		t.Case(true, fmt.Sprintf("%q", s))
		if err != nil && (l != nil || rest != "") {
			t.Fatalf("ParseLiteral(%q) fails but returns %v, %q", s, l, rest)
		}
		if err == nil {
			if !strings.HasSuffix(s, rest) {
				t.Fatalf("ParseLiteral(%q) leaves %q", s, rest)
			}
			used := s[:len(s)-len(rest)]
			u := nt.Parse("<x:a> <x:p> " + used + " .")
			if !u.OK || u.Triple.O != nt.OfLiteral(l) {
				t.Fatalf("ParseLiteral(%q) takes %q for %q (%s)", s, used, nt.OfLiteral(l), u.Why)
			}
		}
		if alone && strings.Trim(s, " \t") == s {
			t.Class("literal")
			if err != nil {
				t.Fatalf("ParseLiteral(%q) fails: %v", s, err)
			}
			if nt.OfLiteral(l) != r.Triple.O || rest != "" {
				t.Fatalf("ParseLiteral(%q) is %q, rest %q", s, nt.OfLiteral(l), rest)
			}
		}
	})
}
