package c23

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/xtoproto/rdf/ntriples"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/nt"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "triples with random terms printed, spelled and compared, against a hand-written N-Triples reader; non-trivial: some term holds a character outside letters, digits and IRI delimiters, or (for equality) the pair differs in at most one part; distinct by triple and spelling")
}

func rich(x *nt.Triple) bool {
	for _, s := range []string{x.S.Text, x.P.Text, x.O.Text, x.O.Datatype, x.O.Lang} {
		for _, r := range s {
			if !(r < 128 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune(":/#.", r))) {
				return true
			}
		}
	}
	return false
}

func check(line string, want *nt.Triple) string {
	got, c, err := ntriples.ParseLine(line)
	if err != nil {
		return fmt.Sprintf("%q is rejected: %v", line, err)
	}
	if got == nil || c != nil {
		return fmt.Sprintf("%q reads as triple %v, comment %v", line, got, c)
	}
	m, bad := nt.Of(got)
	if bad != "" {
		return fmt.Sprintf("%q: %s", line, bad)
	}
	if m != *want {
		return fmt.Sprintf("%q reads as %s, want %s", line, nt.Show(&m), nt.Show(want))
	}
	b := want.Build()
	if !ntriples.TriplesEqual(got, b) || !ntriples.TriplesEqual(b, got) {
		return fmt.Sprintf("%q reads as a triple unequal to the one written", line)
	}
	if got.String() != b.String() {
		return fmt.Sprintf("%q prints as %q, its equal as %q", line, got, b)
	}
	return ""
}

func TestPrintParse(t *testing.T) {
	pbt.Check(t, 40000, func(t *pbt.T) {
		x := nt.Random(t.T, "t")
		t.Case(rich(x), nt.Show(x))
		t.Class(fmt.Sprintf("object %c", x.O.Kind))
		b := x.Build()
		if m, bad := nt.Of(b); bad != "" || m != *x {
			t.Fatalf("built triple reads back as %s %s", nt.Show(&m), bad)
		}
		s := b.String()
		if s != b.String() {
			t.Fatalf("printing is not deterministic: %q, %q", s, b.String())
		}
		if strings.ContainsAny(s, "\r\n") {
			t.Fatalf("printed on more than one line: %q", s)
		}
		r := nt.Parse(s)
		if !r.OK || r.Triple == nil || r.Undecided {
			t.Fatalf("printed as %q, which the grammar does not derive: %s", s, r.Why)
		}
		if *r.Triple != *x {
			t.Fatalf("printed as %q, which denotes %s", s, nt.Show(r.Triple))
		}
		if d := check(s, x); d != "" {
			t.Fatalf("%s", d)
		}
		// The terms print the same alone.
		if want := b.Subject().String() + " " + b.Predicate().String() + " " + b.Object().String() + " ."; s != want {
			t.Fatalf("printed as %q, its terms as %q", s, want)
		}
		if o := ntriples.NewObjectFromSubject(b.Subject()); o.String() != b.Subject().String() || o.IsIRI() != b.Subject().IsIRI() || o.IsBlankNode() != b.Subject().IsBlankNode() {
			t.Fatalf("as an object the subject %q is %q", b.Subject(), o)
		}
	})
}

func TestSpellings(t *testing.T) {
	pbt.Check(t, 40000, func(t *pbt.T) {
		x := nt.Random(t.T, "t")
		l1, l2 := nt.SpellLine(t.T, x), nt.SpellLine(t.T, x)
		t.Case(rich(x) && l1 != l2, l1+"\n"+l2)
		for _, l := range []string{l1, l2} {
			if r := nt.Parse(l); !r.OK || r.Undecided || *r.Triple != *x {
				pbt.Infra("the harness misspelled %s as %q: %s", nt.Show(x), l, r.Why)
			}
			if d := check(l, x); d != "" {
				t.Fatalf("%s", d)
			}
		}
	})
}

func TestLiterals(t *testing.T) {
	pbt.Check(t, 20000, func(t *pbt.T) {
		x := nt.LiteralTerm(t.T, "l")
		rest := gen.Pick(t.T, "rest", "", " ", ".", " .", "\t<x>", "\"", " @en", "\n", ";", "é", "#", "\\")
		t.Case(rest != "" || len(x.Text) > 0, fmt.Sprintf("%q %q", x, rest))
		if x.Datatype == nt.XSDString || x.Datatype == nt.LangString {
			// The datatype may be left out.
			if short := ntriples.NewLiteral(x.Text, "", x.Lang); nt.OfLiteral(short) != x || !ntriples.LiteralsEqual(short, x.Literal()) {
				t.Fatalf("without its datatype, %q is %q", x, nt.OfLiteral(short))
			}
		}
		s := ntriples.LiteralString(x.Literal())
		if gen.Bool(t.T, "spelled") {
			s = nt.Spell(t.T, x)
		}
		if rest == "é" && x.Lang == "" && strings.HasSuffix(s, `"`) {
			rest = " é"
		}
		l, r, err := ntriples.ParseLiteral(s + rest)
		if err != nil {
			t.Fatalf("ParseLiteral(%q) fails: %v", s+rest, err)
		}
		if got := nt.OfLiteral(l); got != x || r != rest {
			t.Fatalf("ParseLiteral(%q) is %q, rest %q; want %q, rest %q", s+rest, got, r, x, rest)
		}
	})
}

// vary changes one aspect of a triple, or none.
func vary(t *pbt.T, x nt.Triple) nt.Triple {
	term := func(y nt.Term, subject bool) nt.Term {
		switch gen.Int(t.T, 0, 4, "how") {
		case 0: // the same text as another kind of term
			if y.Kind == 'I' {
				return nt.Term{Kind: 'L', Text: y.Text, Datatype: nt.XSDString}
			}
			if y.Kind == 'B' {
				return nt.Term{Kind: 'I', Text: "x:" + y.Text}
			}
			if y.Lang != "" {
				return nt.Term{Kind: 'L', Text: y.Text, Datatype: nt.XSDString}
			}
			return nt.Term{Kind: 'L', Text: y.Text, Datatype: nt.LangString, Lang: "en"}
		case 1:
			if y.Lang != "" {
				y.Lang += "-x"
			} else if y.Kind == 'L' {
				y.Datatype += "x"
			} else {
				y.Text += "x"
			}
		case 2:
			if y.Lang != "" && strings.ToUpper(y.Lang) != y.Lang {
				y.Lang = strings.ToUpper(y.Lang)
			} else {
				y.Text += "y"
			}
		case 3:
			return nt.Object(t.T, "other")
		default:
			if y.Kind == 'I' {
				y.Text += "#"
			} else if y.Kind == 'B' {
				y.Text = "z" + y.Text
			} else {
				y.Text += " "
			}
		}
		return y
	}
	switch gen.Int(t.T, 0, 3, "vary") {
	case 0:
		if y := term(x.S, true); y.Kind != 'L' {
			x.S = y
		}
	case 1:
		if y := term(x.P, false); y.Kind == 'I' {
			x.P = y
		}
	case 2:
		x.O = term(x.O, false)
	}
	return x
}

// Terms are compared as they are: no normalization is part of equality.
func TestIdentity(t *testing.T) {
	pbt.Check(t, 5000, func(t *pbt.T) {
		draw := func(l string) ntriples.IRI {
			return ntriples.IRI(gen.Pick(t.T, l, "http://a/b", "http://a/%62", "http://a/b#", "http://a/b?", "HTTP://a/b", "http://A/b", "http://a:/b", "http://a:80/b", "http://a/./b", "http://a/b/", "http://a/B",
				"http://a/\u00e9", "http://a/e\u0301", "http://a/%C3%A9", "http://a/%c3%a9", "urn:x", "urn:X", "x:", "_:x"))
		}
		a, b := draw("a"), draw("b")
		t.Case(a != b, fmt.Sprintf("%q %q", string(a), string(b)))
		want := a == b
		s, p := ntriples.NewSubjectIRI("x:s"), ntriples.IRI("x:p")
		lit := func(i ntriples.IRI) *ntriples.Object {
			return ntriples.NewObjectLiteral(ntriples.NewLiteral("l", i, ""))
		}
		for _, x := range []struct {
			what string
			got  bool
		}{
			{"IRIsEqual", ntriples.IRIsEqual(a, b)},
			{"SubjectsEqual", ntriples.SubjectsEqual(ntriples.NewSubjectIRI(a), ntriples.NewSubjectIRI(b))},
			{"SubjectsEqual of blank nodes", ntriples.SubjectsEqual(ntriples.NewSubjectBlankNodeID(ntriples.BlankNodeID(a)), ntriples.NewSubjectBlankNodeID(ntriples.BlankNodeID(b)))},
			{"ObjectsEqual", ntriples.ObjectsEqual(ntriples.NewObjectIRI(a), ntriples.NewObjectIRI(b))},
			{"LiteralsEqual", ntriples.LiteralsEqual(lit(a).Literal(), lit(b).Literal())},
			{"TriplesEqual by predicate", ntriples.TriplesEqual(ntriples.NewTriple(s, a, lit("x:d")), ntriples.NewTriple(s, b, lit("x:d")))},
			{"TriplesEqual by datatype", ntriples.TriplesEqual(ntriples.NewTriple(s, p, lit(a)), ntriples.NewTriple(s, p, lit(b)))},
		} {
			if x.got != want {
				t.Fatalf("%s of %q and %q is %v", x.what, string(a), string(b), x.got)
			}
		}
	})
}

func TestEquality(t *testing.T) {
	pbt.Check(t, 40000, func(t *pbt.T) {
		x := *nt.Random(t.T, "t")
		y := vary(t, x)
		t.Case(true, nt.Show(&x)+nt.Show(&y))
		if x == y {
			t.Class("equal")
		} else {
			t.Class("different")
		}
		a, b := x.Build(), y.Build()
		for _, p := range []struct {
			what      string
			got, want bool
		}{
			{"TriplesEqual", ntriples.TriplesEqual(a, b), x == y},
			{"TriplesEqual, swapped", ntriples.TriplesEqual(b, a), x == y},
			{"TriplesEqual to itself", ntriples.TriplesEqual(a, a), true},
			{"SubjectsEqual", ntriples.SubjectsEqual(a.Subject(), b.Subject()), x.S == y.S},
			{"IRIsEqual", ntriples.IRIsEqual(a.Predicate(), b.Predicate()), x.P == y.P},
			{"ObjectsEqual", ntriples.ObjectsEqual(a.Object(), b.Object()), x.O == y.O},
			{"ObjectsEqual, swapped", ntriples.ObjectsEqual(b.Object(), a.Object()), x.O == y.O},
			{"printed the same", a.String() == b.String(), x == y},
		} {
			if p.got != p.want {
				t.Fatalf("%s is %v for %s and %s", p.what, p.got, a, b)
			}
		}
		if x.O.Kind == 'L' && y.O.Kind == 'L' && ntriples.LiteralsEqual(x.O.Literal(), y.O.Literal()) != (x.O == y.O) {
			t.Fatalf("LiteralsEqual is %v for %s and %s", x.O != y.O, a, b)
		}
	})
}
