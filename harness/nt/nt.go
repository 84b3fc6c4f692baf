// Package nt is a hand-written reading of the W3C N-Triples grammar, with
// generators of triples and of their spellings.
package nt

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/google/xtoproto/rdf/ntriples"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/irix"
)

const (
	XSDString  = "http://www.w3.org/2001/XMLSchema#string"
	LangString = "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
)

// Term is an RDF term: Kind is 'I', 'B' or 'L'.
type Term struct {
	Kind                 byte
	Text, Datatype, Lang string
}

type Triple struct{ S, P, O Term }

// Result is what the grammar makes of a line.
type Result struct {
	Triple    *Triple
	Comment   *string
	Blank     bool
	OK        bool
	Undecided bool // space around ^^ or before @, which readings of the grammar differ on
	Why       string
}

type reader struct {
	r []rune
	i int
}

func (d *reader) peek() rune {
	if d.i < len(d.r) {
		return d.r[d.i]
	}
	return -1
}

func (d *reader) space() bool {
	k := d.i
	for d.peek() == ' ' || d.peek() == '\t' {
		d.i++
	}
	return d.i > k
}

type reject string

func fail(f string, a ...interface{}) { panic(reject(fmt.Sprintf(f, a...))) }

// uchar reads the escape after the backslash.
func (d *reader) uchar() rune {
	n := 4
	if d.peek() == 'U' {
		n = 8
	} else if d.peek() != 'u' {
		fail("bad escape")
	}
	d.i++
	v := 0
	for k := 0; k < n; k++ {
		c := d.peek()
		switch {
		case c >= '0' && c <= '9':
			v = v*16 + int(c-'0')
		case c >= 'a' && c <= 'f':
			v = v*16 + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			v = v*16 + int(c-'A') + 10
		default:
			fail("bad hex digit")
		}
		d.i++
	}
	if v > 0x10ffff || v >= 0xd800 && v < 0xe000 {
		fail("escape denotes no character")
	}
	return rune(v)
}

// IRIChar reports whether a character may stand in an IRIREF.
func IRIChar(r rune) bool { return r > 0x20 && !strings.ContainsRune("<>\"{}|^`\\", r) }

// Normal is the percent-normal form of an IRI, or the text itself if it has none.
func Normal(s string) string {
	if n, ok := irix.Normalize(s); ok {
		return n
	}
	return s
}

func hasScheme(s string) bool {
	k := strings.IndexByte(s, ':')
	if k < 1 {
		return false
	}
	for i := 0; i < k; i++ {
		c := s[i]
		alpha := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !alpha && (i == 0 || !(c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.')) {
			return false
		}
	}
	return true
}

func (d *reader) iri() Term {
	if d.peek() != '<' {
		fail("no IRI")
	}
	d.i++
	var b strings.Builder
	for {
		c := d.peek()
		d.i++
		switch {
		case c == '>':
			s := Normal(b.String())
			if !hasScheme(s) {
				fail("relative IRI")
			}
			return Term{Kind: 'I', Text: s}
		case c == '\\':
			r := d.uchar()
			if !IRIChar(r) {
				fail("escaped character not allowed in IRIs")
			}
			b.WriteRune(r)
		case c < 0 || !IRIChar(c):
			fail("bad character in IRI")
		default:
			b.WriteRune(c)
		}
	}
}

var baseRanges = [][2]rune{{'A', 'Z'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}}

func LabelFirst(r rune) bool {
	if r == '_' || r == ':' || r >= '0' && r <= '9' {
		return true
	}
	for _, x := range baseRanges {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	return false
}

func LabelChar(r rune) bool {
	return LabelFirst(r) || r == '-' || r == 0xB7 || r >= 0x300 && r <= 0x36F || r >= 0x203F && r <= 0x2040
}

func (d *reader) blank() Term {
	d.i++ // _
	if d.peek() != ':' {
		fail("no colon")
	}
	d.i++
	start := d.i
	if !LabelFirst(d.peek()) {
		fail("bad first character of label")
	}
	end := d.i + 1
	for k := d.i + 1; k < len(d.r); k++ {
		if LabelChar(d.r[k]) {
			end = k + 1
		} else if d.r[k] != '.' {
			break
		}
	}
	d.i = end
	return Term{Kind: 'B', Text: string(d.r[start:end])}
}

var echars = map[rune]rune{'t': '\t', 'b': '\b', 'n': '\n', 'r': '\r', 'f': '\f', '"': '"', '\'': '\'', '\\': '\\'}

func (d *reader) literal(undecided *bool) Term {
	d.i++
	var b strings.Builder
loop:
	for {
		c := d.peek()
		d.i++
		switch {
		case c < 0:
			fail("unterminated literal")
		case c == '"':
			break loop
		case c == '\n' || c == '\r':
			fail("line end in literal")
		case c == '\\':
			if e, ok := echars[d.peek()]; ok {
				b.WriteRune(e)
				d.i++
			} else {
				b.WriteRune(d.uchar())
			}
		default:
			b.WriteRune(c)
		}
	}
	save := d.i
	if d.space() && (d.peek() == '@' || d.peek() == '^') {
		*undecided = true
	} else {
		d.i = save
	}
	switch d.peek() {
	case '@':
		d.i++
		start := d.i
		part := func(digits bool) {
			k := d.i
			for {
				c := d.peek()
				if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || digits && c >= '0' && c <= '9' {
					d.i++
				} else {
					break
				}
			}
			if d.i == k {
				fail("bad language tag")
			}
		}
		part(false)
		for d.peek() == '-' {
			d.i++
			part(true)
		}
		return Term{Kind: 'L', Text: b.String(), Datatype: LangString, Lang: string(d.r[start:d.i])}
	case '^':
		d.i++
		if d.peek() != '^' {
			fail("bad datatype")
		}
		d.i++
		save := d.i
		if d.space() {
			if d.peek() == '<' {
				*undecided = true
			} else {
				d.i = save
			}
		}
		return Term{Kind: 'L', Text: b.String(), Datatype: d.iri().Text}
	}
	return Term{Kind: 'L', Text: b.String(), Datatype: XSDString}
}

// Parse reads a line.
func Parse(line string) (res Result) {
	if !utf8.ValidString(line) {
		return Result{Why: "not UTF-8"}
	}
	d := &reader{r: []rune(line)}
	undecided := false
	defer func() {
		if x := recover(); x != nil {
			why, ok := x.(reject)
			if !ok {
				panic(x)
			}
			res = Result{Why: string(why), Undecided: undecided}
		}
	}()
	d.space()
	if d.peek() < 0 {
		return Result{Blank: true, OK: true}
	}
	if d.peek() == '#' {
		c := string(d.r[d.i+1:])
		if strings.ContainsAny(c, "\r\n") {
			return Result{Undecided: true}
		}
		return Result{Comment: &c, OK: true}
	}
	var t Triple
	switch d.peek() {
	case '<':
		t.S = d.iri()
	case '_':
		t.S = d.blank()
	default:
		fail("no subject")
	}
	d.space()
	t.P = d.iri()
	d.space()
	switch d.peek() {
	case '<':
		t.O = d.iri()
	case '_':
		t.O = d.blank()
	case '"':
		t.O = d.literal(&undecided)
	default:
		fail("no object")
	}
	d.space()
	if d.peek() != '.' {
		fail("no full stop")
	}
	d.i++
	d.space()
	if c := d.peek(); c == '#' {
		if strings.ContainsAny(string(d.r[d.i:]), "\r\n") {
			undecided = true
		}
	} else if c == '\r' || c == '\n' {
		undecided = true
	} else if c >= 0 {
		fail("text after the full stop")
	}
	return Result{Triple: &t, OK: true, Undecided: undecided}
}

// Build makes the term with the package's constructors.
func (t *Triple) Build() *ntriples.Triple {
	return ntriples.NewTriple(t.S.Subject(), ntriples.IRI(t.P.Text), t.O.Object())
}

func (t Term) Subject() *ntriples.Subject {
	if t.Kind == 'B' {
		return ntriples.NewSubjectBlankNodeID(ntriples.BlankNodeID(t.Text))
	}
	return ntriples.NewSubjectIRI(ntriples.IRI(t.Text))
}

func (t Term) Literal() ntriples.Literal {
	return ntriples.NewLiteral(t.Text, ntriples.IRI(t.Datatype), t.Lang)
}

func (t Term) Object() *ntriples.Object {
	switch t.Kind {
	case 'B':
		return ntriples.NewObjectBlankNodeID(ntriples.BlankNodeID(t.Text))
	case 'I':
		return ntriples.NewObjectIRI(ntriples.IRI(t.Text))
	}
	return ntriples.NewObjectLiteral(t.Literal())
}

// Of reads a triple back through its accessors; the second result says what
// is inconsistent.
func Of(t *ntriples.Triple) (Triple, string) {
	var m Triple
	s, o := t.Subject(), t.Object()
	switch {
	case s.IsIRI() && !s.IsBlankNode():
		m.S = Term{Kind: 'I', Text: string(s.IRI())}
	case s.IsBlankNode() && !s.IsIRI():
		m.S = Term{Kind: 'B', Text: string(s.BlankNodeID())}
	default:
		return m, "the subject is neither or both of IRI and blank node"
	}
	m.P = Term{Kind: 'I', Text: string(t.Predicate())}
	n := 0
	if o.IsIRI() {
		n++
		m.O = Term{Kind: 'I', Text: string(o.IRI())}
	}
	if o.IsBlankNode() {
		n++
		m.O = Term{Kind: 'B', Text: string(o.BlankNodeID())}
	}
	if o.IsLiteral() {
		n++
		if o.Literal() == nil {
			return m, "the object is a literal without a value"
		}
		m.O = OfLiteral(o.Literal())
	}
	if n != 1 {
		return m, fmt.Sprintf("the object is of %d kinds", n)
	}
	return m, ""
}

func OfLiteral(l ntriples.Literal) Term {
	return Term{Kind: 'L', Text: l.LexicalForm(), Datatype: string(l.Datatype()), Lang: l.LanguageTag()}
}

// ---- generators ----

// Edges are characters at the borders of the grammar's classes.
var Edges = func() []rune {
	var out []rune
	for _, x := range append(baseRanges, [2]rune{'0', '9'}, [2]rune{0x300, 0x36F}, [2]rune{0x203F, 0x2040}, [2]rune{0xB7, 0xB7}, [2]rune{'-', '.'}, [2]rune{':', ':'}, [2]rune{'_', '_'}) {
		for _, r := range []rune{x[0] - 1, x[0], x[1], x[1] + 1} {
			if r < 0xd800 || r >= 0xe000 {
				out = append(out, r)
			}
		}
	}
	return append(out, 0xE000, 0x10ffff, 0xFEFF, 0xFFFE, 0xFFFF, 0x85, 0xA0, 0x2028, 0x7f, 1, 0)
}()

func AnyRune(t gen.D, label string) rune {
	switch gen.Int(t, 0, 4, label+" kind") {
	case 0:
		return gen.Pick(t, label, Edges...)
	case 1:
		r := rune(gen.Int(t, 0, 0x10ffff, label))
		if r >= 0xd800 && r < 0xe000 {
			return r + 0x1000
		}
		return r
	}
	return rune(gen.Int(t, 0x20, 0x17f, label))
}

// IRI draws an absolute IRI, in percent-normal form if normal is set.
func IRI(t gen.D, label string) string {
	var s string
	switch gen.Int(t, 0, 5, label+" shape") {
	case 0:
		s = irix.IRI(t)
	case 1:
		s = irix.Simple(t, label)
	case 2:
		s = gen.Pick(t, label, "http://a/b", "http://a/c", "urn:x", "x:", "http://a/b#c", "http://a/B", XSDString, LangString)
	default:
		var b strings.Builder
		b.WriteString(gen.Pick(t, label+" scheme", "http://e/", "urn:", "a+b-1.c:", "x:", "HTTP://r&#xE9;x/"))
		for k := gen.Int(t, 0, 5, label+" len"); k > 0; k-- {
			if r := AnyRune(t, label+" char"); IRIChar(r) {
				b.WriteRune(r)
			}
		}
		s = b.String()
	}
	s = Normal(s)
	// Decoding may reveal an escape that decodes again: settle on a fixed point.
	for n := Normal(s); n != s; n = Normal(s) {
		s = n
	}
	return s
}

func Label(t gen.D, label string) string {
	if gen.OneIn(t, 3, label+" plain") {
		return gen.Pick(t, label, "a", "b", "gen-1", "a.b", "0", "_", ":", "b0")
	}
	var b []rune
	n := gen.Int(t, 1, 5, label+" len")
	for k := 0; k < n; k++ {
		r := AnyRune(t, label+" char")
		if gen.OneIn(t, 4, label+" mark") {
			r = gen.Pick(t, label+" mark char", '-', '.', '.', ':', '_', 0xB7, '0')
		}
		switch {
		case k == 0 && !LabelFirst(r):
			r = 'x'
		case k == n-1 && !LabelChar(r):
			r = 'y'
		case !LabelChar(r) && r != '.':
			r = '.'
		}
		b = append(b, r)
	}
	return string(b)
}

func Lang(t gen.D, label string) string {
	s := gen.Pick(t, label, "en", "de", "EN", "x", "abcdefgh", "zh")
	for k := gen.Int(t, 0, 3, label+" subtags"); k > 0; k-- {
		s += "-" + gen.Pick(t, label+" subtag", "US", "us", "Hant", "1996", "x", "a1", "0")
	}
	return s
}

func Lexical(t gen.D, label string) string {
	var b strings.Builder
	for k := gen.Int(t, 0, 6, label+" len"); k > 0; k-- {
		if gen.Bool(t, label+" special") {
			b.WriteString(gen.Pick(t, label+" piece", `"`, `\`, "\n", "\r", "\t", "\b", "\f", "'", `\n`, `\u0041`, "#", " . ", "<", ">", "@en", "^^", "\x00", "\u0085", "\u2028", "\ufffd", "\U0001f600", "%41", "\x7f"))
		} else {
			b.WriteRune(AnyRune(t, label+" char"))
		}
	}
	return b.String()
}

func LiteralTerm(t gen.D, label string) Term {
	x := Term{Kind: 'L', Text: Lexical(t, label), Datatype: XSDString}
	switch gen.Int(t, 0, 2, label+" kind") {
	case 1:
		x.Datatype, x.Lang = LangString, Lang(t, label+" lang")
	case 2:
		for x.Datatype = IRI(t, label+" type"); x.Datatype == LangString; {
			x.Datatype += "x"
		}
	}
	return x
}

func Subject(t gen.D, label string) Term {
	if gen.Bool(t, label+" blank") {
		return Term{Kind: 'B', Text: Label(t, label)}
	}
	return Term{Kind: 'I', Text: IRI(t, label)}
}

func Object(t gen.D, label string) Term {
	if gen.OneIn(t, 3, label+" node") {
		return Subject(t, label)
	}
	return LiteralTerm(t, label)
}

func Random(t gen.D, label string) *Triple {
	return &Triple{Subject(t, label+" s"), Term{Kind: 'I', Text: IRI(t, label+" p")}, Object(t, label+" o")}
}

func escape(t gen.D, r rune) string {
	up := gen.Bool(t, "upper hex")
	f := "%04x"
	if up {
		f = "%04X"
	}
	if r > 0xffff || gen.OneIn(t, 3, "long") {
		f = "%08x"
		if up {
			f = "%08X"
		}
		return `\U` + fmt.Sprintf(f, r)
	}
	return `\u` + fmt.Sprintf(f, r)
}

// Spell writes an IRI (whose percent-normal form is s) with random escapes.
func spellIRI(t gen.D, s string) string {
	rs := []rune(s)
	colon := strings.IndexByte(s, ':')
	var b strings.Builder
	b.WriteByte('<')
	for i, r := range rs {
		switch gen.Int(t, 0, 9, "iri spelling") {
		case 8:
			b.WriteString(escape(t, r))
		case 9:
			// Percent-escaping an unreserved character keeps the normal form.
			if i > colon && irix.IsIunreserved(r) && !strings.Contains(s, "%") {
				for _, c := range []byte(string(r)) {
					b.WriteString(fmt.Sprintf("%%%02x", c))
				}
				continue
			}
			fallthrough
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('>')
	return b.String()
}

var echarOf = map[rune]string{'\t': `\t`, '\b': `\b`, '\n': `\n`, '\r': `\r`, '\f': `\f`, '"': `\"`, '\'': `\'`, '\\': `\\`}

func Spell(t gen.D, x Term) string {
	switch x.Kind {
	case 'I':
		return spellIRI(t, x.Text)
	case 'B':
		return "_:" + x.Text
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range x.Text {
		must := strings.ContainsRune("\"\\\n\r", r)
		e, has := echarOf[r]
		switch k := gen.Int(t, 0, 5, "spelling"); {
		case k == 5:
			b.WriteString(escape(t, r))
		case has && (must || k == 4):
			b.WriteString(e)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	if x.Lang != "" {
		b.WriteString("@" + x.Lang)
	} else if x.Datatype != XSDString || gen.Bool(t, "explicit") {
		b.WriteString("^^" + spellIRI(t, x.Datatype))
	}
	return b.String()
}

func ws(t gen.D) string { return gen.Pick(t, "ws", " ", " ", "", "\t", "  \t ") }

func CommentText(t gen.D) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' {
			return '#'
		}
		return r
	}, Lexical(t, "comment"))
}

func SpellLine(t gen.D, x *Triple) string {
	s := ws(t)
	if s == " " {
		s = ""
	}
	s += Spell(t, x.S) + ws(t) + Spell(t, x.P) + ws(t) + Spell(t, x.O) + ws(t) + "."
	s += gen.Pick(t, "after", "", "", "", " ", "\t")
	if gen.OneIn(t, 5, "comment") {
		s += "#" + CommentText(t)
	}
	return s
}

func Show(t *Triple) string {
	return strconv.Quote(fmt.Sprintf("%c%s %s %c%s %s %s", t.S.Kind, t.S.Text, t.P.Text, t.O.Kind, t.O.Text, t.O.Datatype, t.O.Lang))
}
