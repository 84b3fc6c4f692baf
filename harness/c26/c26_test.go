package c26

import (
	"encoding/xml"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/rx"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "random legal RDF/XML documents with one fault put into a random element (forbidden names, bad or repeated IDs, conflicting attributes, misplaced text and elements, bad IRIs, unqualified attributes) that the reference interpreter confirms, or with broken XML (truncated, mismatched, more than one root, text outside); and arbitrary XML token streams and bytes; non-trivial: the document has at least three elements besides the fault, or the stream at least three tokens; distinct by text")
}

type fault struct {
	name  string
	roles string // roles of the elements it may go into
	apply func(t *pbt.T, root, e *rx.Node)
}

var old = []string{"aboutEach", "aboutEachPrefix", "bagID"}
var coreTerms = []string{"RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype"}
var badNames = []string{"", "1a", "a b", "a:b", "-a", ".a", "a/b", "é é", "×", "a\u00d7", "333-555", "_:a", "a#b", " a", "a ", "a\u037e"}
var badIRIs = []string{"http://a b", "<x>", "http://a/%zz", "http://a/%4", "a\\b", "{x}", "http://[::1", "1:b", "#a#b", "^", "http://a/`", "\"", "http://a/|"}

func badName(t *pbt.T) string {
	if gen.OneIn(t.T, 3, "edge") {
		return rx.NoName(t.T)
	}
	return gen.Pick(t.T, "bad", badNames...)
}

func remove(e *rx.Node, locals ...string) {
	var out []rx.Attr
	for _, a := range e.Attrs {
		drop := false
		for _, l := range locals {
			drop = drop || a.Local == l && (a.NS == rx.RDF || a.NS == "")
		}
		if !drop {
			out = append(out, a)
		}
	}
	e.Attrs = out
}

func set(e *rx.Node, local, value string) {
	remove(e, local)
	e.Attrs = append(e.Attrs, rx.Attr{NS: rx.RDF, Local: local, Value: value})
}

func insert(t *pbt.T, e *rx.Node, k *rx.Node) {
	i := gen.Int(t.T, 0, len(e.Kids), "insert")
	e.Kids = append(e.Kids[:i:i], append([]*rx.Node{k}, e.Kids[i:]...)...)
}

func words(t *pbt.T) *rx.Node {
	return &rx.Node{Kind: rx.Text, Text: gen.Pick(t.T, "words", "x", " stray ", "\u00a0", ".", "]]>", "\n x", "0", "\ufeff", "\u2003")}
}

// two0 draws a value of the attribute that is fine on its own.
func two0(t *pbt.T, local string) string {
	if (local == "about" || local == "resource") && gen.Bool(t.T, "empty") {
		return ""
	}
	return "two"
}

func description() *rx.Node { return &rx.Node{NS: rx.RDF, Local: "Description", Role: "node"} }

func value() *rx.Node { return &rx.Node{NS: rx.RDF, Local: "value", Role: "empty"} }

var allProps = "empty literal resource ptresource ptcollection ptliteral"

var faults = []fault{
	{"forbidden node name", "node", func(t *pbt.T, root, e *rx.Node) {
		e.NS, e.Local = rx.RDF, gen.Pick(t.T, "name", append(append([]string{"li"}, coreTerms...), old...)...)
	}},
	{"forbidden property name", allProps, func(t *pbt.T, root, e *rx.Node) {
		e.NS, e.Local = rx.RDF, gen.Pick(t.T, "name", append(append([]string{"Description"}, coreTerms...), old...)...)
	}},
	{"forbidden attribute of a node", "node", func(t *pbt.T, root, e *rx.Node) {
		set(e, gen.Pick(t.T, "name", append([]string{"Description", "li", "RDF", "parseType", "resource", "datatype"}, old...)...), "x")
	}},
	{"forbidden attribute of a property", allProps, func(t *pbt.T, root, e *rx.Node) {
		set(e, gen.Pick(t.T, "name", append([]string{"Description", "li", "RDF", "about"}, old...)...), "x")
	}},
	{"bad rdf:ID of a node", "node", func(t *pbt.T, root, e *rx.Node) {
		remove(e, "about", "nodeID")
		set(e, "ID", badName(t))
	}},
	{"bad rdf:ID of a property", allProps, func(t *pbt.T, root, e *rx.Node) { set(e, "ID", badName(t)) }},
	{"bad rdf:nodeID of a node", "node", func(t *pbt.T, root, e *rx.Node) {
		remove(e, "about", "ID")
		set(e, "nodeID", badName(t))
	}},
	{"bad rdf:nodeID of a property", "empty", func(t *pbt.T, root, e *rx.Node) {
		remove(e, "resource", "datatype")
		set(e, "nodeID", badName(t))
	}},
	{"repeated rdf:ID", "node " + allProps, func(t *pbt.T, root, e *rx.Node) {
		var es []*rx.Node
		for _, x := range root.All() {
			if x != e && x.Role != "root" {
				es = append(es, x)
			}
		}
		if len(es) == 0 {
			return
		}
		o := gen.Pick(t.T, "other", es...)
		for _, x := range []*rx.Node{e, o} {
			if x.Role == "node" {
				remove(x, "about", "nodeID")
			}
			set(x, "ID", "twice")
		}
	}},
	{"two subjects", "node", func(t *pbt.T, root, e *rx.Node) {
		two := gen.Pick(t.T, "two", [2]string{"about", "ID"}, [2]string{"about", "nodeID"}, [2]string{"ID", "nodeID"})
		for _, x := range two {
			set(e, x, two0(t, x))
		}
	}},
	{"two objects", "empty", func(t *pbt.T, root, e *rx.Node) {
		two := gen.Pick(t.T, "two", [2]string{"resource", "nodeID"}, [2]string{"resource", "datatype"}, [2]string{"nodeID", "datatype"})
		for _, x := range two {
			set(e, x, two0(t, x))
		}
	}},
	{"parseType with another attribute", "ptresource ptcollection ptliteral", func(t *pbt.T, root, e *rx.Node) {
		if gen.Bool(t.T, "rdf") {
			set(e, gen.Pick(t.T, "attr", "resource", "nodeID", "datatype", "type", "value"), "x")
			return
		}
		e.Attrs = append(e.Attrs, rx.Attr{NS: "http://example.org/extra#", Local: gen.Pick(t.T, "attr", "p", "parseType", "xmlp"), Value: "x"})
	}},
	{"object and node", "resource", func(t *pbt.T, root, e *rx.Node) {
		if gen.Bool(t.T, "rdf") {
			set(e, gen.Pick(t.T, "attr", "resource", "nodeID", "datatype", "type", "value"), "x")
			return
		}
		e.Attrs = append(e.Attrs, rx.Attr{NS: "http://example.org/extra#", Local: "p", Value: "x"})
	}},
	{"object and text", "literal", func(t *pbt.T, root, e *rx.Node) {
		e.Kids = append(e.Kids, words(t))
		if gen.Bool(t.T, "rdf") {
			set(e, gen.Pick(t.T, "attr", "resource", "nodeID", "type", "value"), "x")
			return
		}
		e.Attrs = append(e.Attrs, rx.Attr{NS: "http://example.org/extra#", Local: "p", Value: "x"})
	}},
	{"stray text", "root node resource ptresource ptcollection", func(t *pbt.T, root, e *rx.Node) { insert(t, e, words(t)) }},
	{"node beside text", "literal", func(t *pbt.T, root, e *rx.Node) {
		e.Kids = append(e.Kids, words(t))
		insert(t, e, description())
	}},
	{"second node", "resource", func(t *pbt.T, root, e *rx.Node) { insert(t, e, description()) }},
	{"attribute of rdf:RDF", "root", func(t *pbt.T, root, e *rx.Node) {
		e.Attrs = append(e.Attrs, rx.Attr{NS: gen.Pick(t.T, "ns", rx.RDF, "http://example.org/extra#"), Local: gen.Pick(t.T, "attr", "about", "ID", "type", "p"), Value: "x"})
	}},
	{"unqualified attribute", "root node " + allProps, func(t *pbt.T, root, e *rx.Node) {
		e.Attrs = append(e.Attrs, rx.Attr{Local: gen.Pick(t.T, "attr", "nodeID", "datatype", "href", "foo", "Resource", "li", "xm", "id"), Value: "x"})
	}},
	{"bad IRI of a subject", "node", func(t *pbt.T, root, e *rx.Node) {
		remove(e, "ID", "nodeID")
		set(e, "about", gen.Pick(t.T, "bad", badIRIs...))
	}},
	{"bad IRI of an object", "empty", func(t *pbt.T, root, e *rx.Node) {
		remove(e, "nodeID", "datatype")
		set(e, "resource", gen.Pick(t.T, "bad", badIRIs...))
	}},
	{"bad IRI of a type", "node empty", func(t *pbt.T, root, e *rx.Node) {
		remove(e, "datatype")
		set(e, "type", gen.Pick(t.T, "bad", badIRIs...))
	}},
	{"bad datatype IRI", "literal", func(t *pbt.T, root, e *rx.Node) { set(e, "datatype", gen.Pick(t.T, "bad", badIRIs...)) }},
	{"bad base IRI", "root node " + allProps, func(t *pbt.T, root, e *rx.Node) {
		var out []rx.Attr
		for _, a := range e.Attrs {
			if a.NS != rx.XMLNS || a.Local != "base" {
				out = append(out, a)
			}
		}
		e.Attrs = append(out, rx.Attr{NS: rx.XMLNS, Local: "base", Value: gen.Pick(t.T, "bad", badIRIs...)})
	}},
}

// inLiteral reports whether e is within an XML literal or is one itself.
func hasRole(e *rx.Node, roles string) bool {
	for _, r := range strings.Fields(roles) {
		if e.Role == r {
			return true
		}
	}
	return false
}

func TestFaults(t *testing.T) {
	pbt.Check(t, 6000, func(t *pbt.T) {
		root, base, want := rx.Document(t, gen.Int(t.T, 1, 12, "budget"))
		if want.Illegal != "" || want.Unspecified != "" {
			t.Excluded("not legal to begin with")
			return
		}
		f := gen.Pick(t.T, "fault", faults...)
		// An element that the fault fits is there for most faults.
		for _, e := range root.All() {
			if e.Role == "node" {
				for _, p := range []string{"literal", "resource", "ptresource", "ptcollection", "ptliteral", "empty"} {
					if !hasRole(&rx.Node{Role: p}, f.roles) || !gen.OneIn(t.T, 4, "more") {
						continue
					}
					n := &rx.Node{NS: "http://example.org/ns#", Local: "p", Role: p}
					switch p {
					case "literal":
						n.Kids = []*rx.Node{{Kind: rx.Text, Text: "x"}}
					case "resource":
						n.Kids = []*rx.Node{description()}
					case "ptresource":
						set(n, "parseType", "Resource")
					case "ptcollection":
						set(n, "parseType", "Collection")
					case "ptliteral":
						set(n, "parseType", "Literal")
					}
					insert(t, e, n)
				}
			}
		}
		before := len(root.All())
		var at []*rx.Node
		for _, e := range root.All() {
			if hasRole(e, f.roles) {
				at = append(at, e)
			}
		}
		if len(at) == 0 {
			t.Excluded("no place for " + f.name)
			return
		}
		f.apply(t, root, gen.Pick(t.T, "at", at...))
		// The document may be deep inside of valid neighbours.
		r := rx.Interpret(root, base)
		if r.Illegal == "" {
			t.Excluded("still legal or unspecified: " + f.name)
			return
		}
		doc := rx.Write(t.T, root)
		how := gen.Pick(t.T, "how", rx.Sources...)
		t.Case(before >= 4, fmt.Sprintf("%s: %q base %q by %s", f.name, doc, base, how))
		t.Class(f.name)
		_, raw, err, wrong := rx.Read(rx.Source(how, doc), base)
		if wrong != "" {
			t.Fatalf("%s\nbase %q, by %s (%s): %s", doc, base, how, r.Illegal, wrong)
		}
		if err == nil {
			t.Fatalf("%s\nbase %q, by %s: accepted as %v, but: %s", doc, base, how, raw, r.Illegal)
		}
	}, pbt.MustTerminate())
}

func TestBrokenXML(t *testing.T) {
	pbt.Check(t, 3000, func(t *pbt.T) {
		root, base, want := rx.Document(t, gen.Int(t.T, 1, 10, "budget"))
		if want.Illegal != "" || want.Unspecified != "" {
			t.Excluded("not legal to begin with")
			return
		}
		doc := rx.Write(t.T, root)
		bad := doc
		kind := gen.Pick(t.T, "kind", "truncated", "truncated", "truncated", "second root", "text behind", "text in front", "no root", "dropped end tag", "extra end tag", "bare ampersand", "bare less-than", "reader fails")
		end := strings.LastIndexByte(doc, '>')
		if i := strings.LastIndex(doc, "</"); i > 0 {
			if j := strings.IndexByte(doc[i:], '>'); j >= 0 {
				end = i + j // of the root, unless it is empty
			}
		}
		if len(root.Kids) == 0 {
			kind = "no root"
		}
		switch kind {
		case "truncated":
			bad = doc[:gen.Int(t.T, 0, end, "cut")]
		case "second root":
			bad = doc[:end+1] + gen.Pick(t.T, "second", `<rdf:RDF xmlns:rdf="`+rx.RDF+`"/>`, `<rdf:Description xmlns:rdf="`+rx.RDF+`"/>`, `<x/>`, `<x xmlns="urn:x:"/>`)
		case "text behind":
			bad = doc[:end+1] + gen.Pick(t.T, "text", "x", " stray", "\n.", "&#160;", "&lt;")
		case "text in front":
			bad = gen.Pick(t.T, "text", "x", " stray ", "&lt;") + strings.TrimPrefix(doc, "<?xml version=\"1.0\"?>")
			if strings.HasPrefix(doc, "<?xml") && !strings.HasPrefix(bad, "x") {
				bad = "x" + doc
			}
		case "no root":
			bad = gen.Pick(t.T, "nothing", "", " ", "<!-- c -->", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\"?>\n<!-- c -->\n", "<!DOCTYPE x>", "text")
		case "dropped end tag":
			bad = doc[:strings.LastIndex(doc, "</")]
		case "extra end tag":
			i := strings.LastIndex(doc, "</")
			bad = doc[:i] + doc[i:end+1] + doc[i:end+1]
		case "bare ampersand":
			i := strings.LastIndex(doc, "</")
			bad = doc[:i] + "&" + doc[i:]
		case "bare less-than":
			i := strings.LastIndex(doc, "</")
			bad = doc[:i] + "< " + doc[i:]
		}
		how := gen.Pick(t.T, "how", rx.Sources...)
		src := rx.Source(how, bad)
		if kind == "reader fails" {
			toks := rx.Source("tokens", doc).(*rx.Tokens)
			// Within the root element, so that more is needed.
			first := 0
			for i, k := range toks.Toks {
				if _, ok := k.(xml.StartElement); ok {
					first = i
					break
				}
			}
			last := first
			for i, k := range toks.Toks {
				if _, ok := k.(xml.EndElement); ok {
					last = i
				}
			}
			toks.Toks = toks.Toks[:gen.Int(t.T, first+1, last, "tokens")]
			toks.Err = fmt.Errorf("disk on fire")
			toks.Eager = gen.Bool(t.T, "eager")
			src, how = toks, fmt.Sprintf("%d tokens, then an error", len(toks.Toks))
		}
		t.Case(len(root.All()) >= 3, fmt.Sprintf("%s: %q base %q by %s", kind, bad, base, how))
		t.Class(kind)
		_, raw, err, wrong := rx.Read(src, base)
		if wrong != "" {
			t.Fatalf("%s: %s\nbase %q, by %s: %s", kind, bad, base, how, wrong)
		}
		if err == nil {
			t.Fatalf("%s: %s\nbase %q, by %s: accepted as %v", kind, bad, base, how, raw)
		}
	}, pbt.MustTerminate())
}

func drawName(t *pbt.T) xml.Name {
	if gen.OneIn(t.T, 4, "odd") {
		return xml.Name{Space: gen.Pick(t.T, "space", "", "xmlns", rx.XMLNS, "urn:x:", "xml"), Local: gen.Pick(t.T, "local", "", "a", "xmlns", "base", "lang", "RDF", "é")}
	}
	return xml.Name{Space: rx.RDF, Local: gen.Pick(t.T, "rdf", append(append([]string{"Description", "li", "type", "_1", "value", "Seq"}, coreTerms...), old...)...)}
}

// TestTokens reads arbitrary streams, which need not be balanced.
func TestTokens(t *testing.T) {
	pbt.Check(t, 4000, func(t *pbt.T) {
		toks := &rx.Tokens{Eager: gen.Bool(t.T, "eager"), Err: io.EOF}
		n := gen.Int(t.T, 0, 25, "n")
		var open []xml.Name
		for i := 0; i < n; i++ {
			switch gen.Int(t.T, 0, 9, "token") {
			case 0, 1, 2, 3:
				e := xml.StartElement{Name: drawName(t)}
				for gen.OneIn(t.T, 2, "attr") {
					e.Attr = append(e.Attr, xml.Attr{Name: drawName(t), Value: gen.Pick(t.T, "value", "", "a", "Resource", "Literal", "Collection", "http://x/", "#", "é", "a b", "\x00")})
				}
				open = append(open, e.Name)
				toks.Toks = append(toks.Toks, e)
			case 4, 5, 6:
				name := drawName(t)
				if len(open) > 0 && !gen.OneIn(t.T, 10, "wrongend") {
					name, open = open[len(open)-1], open[:len(open)-1]
				}
				toks.Toks = append(toks.Toks, xml.EndElement{Name: name})
			case 7:
				toks.Toks = append(toks.Toks, xml.CharData(gen.Text(t.T, 3, "text")))
			case 8:
				toks.Toks = append(toks.Toks, xml.Comment(gen.Pick(t.T, "comment", "", "a", "--", "-->")))
			default:
				toks.Toks = append(toks.Toks, gen.Pick[xml.Token](t.T, "other", xml.ProcInst{Target: "xml", Inst: []byte("?>")}, xml.ProcInst{Target: "t"}, xml.Directive("DOCTYPE <"), xml.Directive("x")))
			}
		}
		desc := fmt.Sprintf("%v", toks.Toks)
		t.Case(n >= 3, desc)
		_, _, err, wrong := rx.Read(toks, gen.Pick(t.T, "base", "", "http://example.org/dir/file"))
		t.Class(fmt.Sprintf("error %v", err != nil))
		if wrong != "" && strings.HasPrefix(wrong, "panic") {
			t.Fatalf("%s: %s", desc, wrong)
		}
	}, pbt.MustTerminate())
}

// TestBytes reads broken spellings of documents.
func TestBytes(t *testing.T) {
	pbt.Check(t, 3000, func(t *pbt.T) {
		root, base, _ := rx.Document(t, gen.Int(t.T, 1, 10, "budget"))
		b := []byte(rx.Write(t.T, root))
		for n := gen.Int(t.T, 1, 4, "edits"); n > 0 && len(b) > 0; n-- {
			i := gen.Int(t.T, 0, len(b)-1, "at")
			j := min(len(b), i+gen.Int(t.T, 0, 12, "len"))
			switch gen.Int(t.T, 0, 3, "edit") {
			case 0:
				b = append(b[:i:i], b[j:]...)
			case 1:
				b = append(b[:j:j], b[i:]...)
			case 2:
				b[i] = byte(gen.Int(t.T, 0, 255, "byte"))
			default:
				b = append(b[:i:i], append([]byte(gen.Pick(t.T, "piece", "<", ">", "&", "\"", "</", "/>", "<![CDATA[", "]]>", "<!--", "xmlns:", "rdf:", ":", " rdf:ID='a'", " rdf:parseType='Literal'", " rdf:parseType='Collection'")), b[i:]...)...)
			}
		}
		t.Case(true, string(b))
		_, _, err, wrong := rx.Read(xml.NewDecoder(strings.NewReader(string(b))), base)
		t.Class(fmt.Sprintf("error %v", err != nil))
		if strings.HasPrefix(wrong, "panic") {
			t.Fatalf("%q: %s", b, wrong)
		}
	}, pbt.MustTerminate())
}

func nested(depth int, kind string, closed bool) (string, string) {
	open, shut, inner := "<x:x>", "</x:x>", ""
	switch kind {
	case "parseType Resource":
		open, shut = `<x:p r:parseType="Resource">`, "</x:p>"
	case "parseType Collection":
		open, shut = `<x:p r:parseType="Collection"><x:n>`, "</x:n></x:p>"
	case "parseType Literal":
		open, shut = "<a>", "</a>"
	}
	front, back := `<r:RDF xmlns:r="`+rx.RDF+`" xmlns:x="urn:x:">`, "</r:RDF>"
	switch kind {
	case "parseType Resource", "parseType Collection":
		front, back = front+"<x:n>", "</x:n>"+back
	case "parseType Literal":
		front, back = front+`<x:n><x:p r:parseType="Literal">`, "</x:p></x:n>"+back
	default:
		depth = (depth + 1) / 2 * 2 // ends with a property, without content
	}
	s := front + strings.Repeat(open, depth) + inner
	if closed {
		s += strings.Repeat(shut, depth) + back
	}
	return s, front
}

// TestDeep nests elements to any depth, which is read or refused.
func TestDeep(t *testing.T) {
	pbt.Check(t, 12, func(t *pbt.T) {
		depth := gen.Pick(t.T, "depth", 2, 100, 1000, 30000, 1000000, 3000000)
		kind := gen.Pick(t.T, "kind", "nodes", "nodes", "parseType Resource", "parseType Collection", "parseType Literal")
		t.Case(true, "")
		deep(t, depth, kind, gen.Bool(t.T, "closed"))
		for _, k := range []string{"nodes", "parseType Resource", "parseType Collection", "parseType Literal"} {
			deep(t, gen.Pick(t.T, "legal", 300, 700, 1000), k, true)
		}
	}, pbt.MustTerminate(), pbt.ThoroughMult(4))
}

func deep(t *pbt.T, depth int, kind string, closed bool) {
	{
		t.Sub(true, fmt.Sprintf("%s nested %d times, closed: %v", kind, depth, closed))
		doc, _ := nested(depth, kind, closed)
		_, raw, err, wrong := rx.Read(xml.NewDecoder(strings.NewReader(doc)), "http://example.org/")
		if wrong != "" {
			t.Fatalf("%s nested %d times: %.300s", kind, depth, wrong)
		}
		if !closed && err == nil {
			t.Fatalf("an unfinished document was read without an error")
		}
		if closed && depth <= 1000 && (err != nil || len(raw) == 0) {
			t.Fatalf("%s nested %d times: %d triples, %.300v", kind, depth, len(raw), err)
		}
	}
}

// TestFar has what is illegal behind many nodes that are not.
func TestFar(t *testing.T) {
	pbt.Check(t, 60, func(t *pbt.T) {
		n := gen.Pick(t.T, "n", 20, 60, 130, 300, 1100, 5001)
		k := gen.Pick(t.T, "k", 0, 0, 1, n/2, n-1)
		kind := gen.Pick(t.T, "kind", "none", "ID", "ID", "property ID", "text", "nodeID", "attribute", "element", "end")
		var b strings.Builder
		b.WriteString(`<r:RDF xmlns:r="` + rx.RDF + `" xmlns:x="urn:x:">`)
		form := gen.Pick(t.T, "form", `<x:n r:ID="n%d"/>`, `<x:n><x:p r:ID="n%d">v</x:p></x:n>`, `<x:n r:ID="n%d"><x:p><x:m/></x:p></x:n>`)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, form, i)
			if i == n-1 || gen.OneIn(t.T, 50, "newline") {
				b.WriteString("\n<!-- c -->")
			}
		}
		end := "</r:RDF>"
		switch kind {
		case "ID":
			fmt.Fprintf(&b, `<x:n r:ID="n%d"/>`, k)
		case "property ID":
			fmt.Fprintf(&b, `<x:n><x:p r:ID="n%d">v</x:p></x:n>`, k)
		case "text":
			b.WriteString("words")
		case "nodeID":
			b.WriteString(`<x:n r:nodeID="1"/>`)
		case "attribute":
			b.WriteString(`<x:n r:aboutEach="urn:y"/>`)
		case "element":
			b.WriteString(`<r:li/>`)
		case "end":
			end = ""
		}
		b.WriteString(end)
		desc := fmt.Sprintf("%d of %s, then %s of %d", n, form, kind, k)
		t.Case(kind != "none", desc)
		_, raw, err, wrong := rx.Read(rx.Source(gen.Pick(t.T, "how", rx.Sources...), b.String()), "http://example.org/")
		if wrong != "" {
			t.Fatalf("%s: %.300s", desc, wrong)
		}
		if (err == nil) != (kind == "none") {
			t.Fatalf("%s: %d triples, error %.300v", desc, len(raw), err)
		}
	}, pbt.MustTerminate())
}

func TestFixed(t *testing.T) {
	pbt.Regression(t, "deep-nesting", func() string {
		doc, _ := nested(3000000, "nodes", false)
		if _, _, err, _ := rx.Read(xml.NewDecoder(strings.NewReader(doc)), "http://example.org/"); err == nil {
			return "an unfinished document was read without an error"
		}
		return ""
	})
	for _, c := range []struct{ name, doc string }{
		{"stray-text", `<r:Description>x</r:Description>`},
		{"same-id", `<r:Description r:ID="a"/><r:Description r:ID="a"/>`},
		{"same-id-node-property", `<r:Description r:ID="a"><r:value r:ID="a">x</r:value></r:Description>`},
		{"id-not-a-name", `<r:Description r:ID="1a"/>`},
		{"property-id-not-a-name", `<r:Description><r:value r:ID="a:b"/></r:Description>`},
		{"resource-and-node", `<r:Description><r:value r:resource="x"><r:Description/></r:value></r:Description>`},
		{"unqualified", `<r:Description foo="x"/>`},
		{"no-break-space", "\u00a0"},
	} {
		pbt.Regression(t, c.name, func() string {
			doc := `<r:RDF xmlns:r="` + rx.RDF + `">` + c.doc + `</r:RDF>`
			_, raw, err, wrong := rx.Read(xml.NewDecoder(strings.NewReader(doc)), "http://example.org/")
			if err == nil || wrong != "" {
				return fmt.Sprintf("%s: %s accepted as %v %s", c.name, doc, raw, wrong)
			}
			return ""
		})
	}
}
