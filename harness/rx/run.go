package rx

import (
	"encoding/xml"
	"fmt"
	"io"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/google/xtoproto/rdf/ntriples"
	"github.com/google/xtoproto/rdf/rdfxml"
	"github.com/google/xtoproto/verifharness/nt"
	"github.com/google/xtoproto/verifharness/pbt"
)

// Tokens hands out tokens; the last comes along with the error if Eager.
type Tokens struct {
	Toks  []xml.Token
	Eager bool
	Err   error
}

func (s *Tokens) Token() (xml.Token, error) {
	if len(s.Toks) == 0 {
		return nil, s.Err
	}
	t := s.Toks[0]
	s.Toks = s.Toks[1:]
	if len(s.Toks) == 0 && s.Eager {
		return t, s.Err
	}
	return t, nil
}

// Sources are the ways a document reaches the parser.
var Sources = []string{"decoder", "one byte at a time", "tokens", "tokens, the last with EOF"}

// Source makes one of them.
func Source(how, doc string) xml.TokenReader {
	switch how {
	case "decoder":
		return xml.NewDecoder(strings.NewReader(doc))
	case "one byte at a time":
		return xml.NewDecoder(iotest.OneByteReader(strings.NewReader(doc)))
	}
	s := &Tokens{Eager: how != "tokens", Err: io.EOF}
	d := xml.NewDecoder(strings.NewReader(doc))
	for {
		t, err := d.Token()
		if err != nil {
			s.Err = err
			return s
		}
		s.Toks = append(s.Toks, xml.CopyToken(t))
	}
}

// Read reads a document with the code under test. The last result says what
// is wrong with the triples themselves.
func Read(r xml.TokenReader, base string) (ts []Triple, raw []*ntriples.Triple, err error, wrong string) {
	defer func() {
		if r := recover(); r != nil {
			wrong = fmt.Sprintf("panic: %v", r)
		}
	}()
	opts := &rdfxml.ParserOptions{BaseURL: ntriples.IRI(base)}
	if base == "" {
		opts = nil
	}
	raw, err = rdfxml.NewParser(r, opts).ReadAllTriples()
	if err != nil {
		return nil, raw, err, ""
	}
	for _, t := range raw {
		x, why := nt.Of(t)
		if why != "" {
			return nil, raw, nil, fmt.Sprintf("%v: %s", t, why)
		}
		var out Triple
		for i, term := range []nt.Term{x.S, x.P, x.O} {
			switch term.Kind {
			case 'I':
				out[i] = iri(term.Text)
			case 'B':
				out[i] = "_:" + term.Text
			default:
				s := term.Text
				switch {
				case term.Lang != "":
					if term.Datatype != nt.LangString {
						return nil, raw, nil, fmt.Sprintf("%v has datatype %s", t, term.Datatype)
					}
					out[i] = literal(s, term.Lang)
				case term.Datatype == RDF+"XMLLiteral":
					c, why := CanonicalText(s)
					if why != "" {
						return nil, raw, nil, why
					}
					out[i] = typed(c, term.Datatype)
				case term.Datatype == "":
					out[i] = literal(s, "")
				default:
					out[i] = typed(s, term.Datatype)
				}
			}
		}
		ts = append(ts, out)
	}
	return ts, raw, nil, ""
}

// Reprint writes the triples as N-Triples and reads those.
func Reprint(raw []*ntriples.Triple) string {
	var lines []string
	for _, t := range raw {
		lines = append(lines, t.String())
	}
	back, err := ntriples.ParseLines(lines)
	if err != nil {
		return fmt.Sprintf("N-Triples of the graph: %v", err)
	}
	if len(back) != len(raw) {
		return fmt.Sprintf("%d triples print as %d", len(raw), len(back))
	}
	for i := range back {
		a, _ := nt.Of(raw[i])
		b, _ := nt.Of(back[i])
		if a != b {
			return "the triple " + strconv.Quote(lines[i]) + " reads as " + strconv.Quote(back[i].String())
		}
	}
	return ""
}

// Document draws a document, its base and its reading.
func Document(t *pbt.T, budget int) (*Node, string, Reading) {
	g := &Gen{T: t.T, Budget: budget}
	root, base := g.Document()
	return root, base, Interpret(root, base)
}
