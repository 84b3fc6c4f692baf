package rx

import (
	"fmt"
	"strings"

	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/irix"
)

// Gen draws documents.
type Gen struct {
	T      gen.D
	Budget int // of elements
}

var namespaces = []string{"http://example.org/ns#", "http://example.org/vocab/", "urn:x:", "http://example.org/n", "http://e/?a=1&b=", "http://www.w3.org/2000/01/rdf-schema#", "http://example.org/xml/"}
var locals = []string{"p", "q", "name", "value", "Class1", "é", "_u", "a.b", "a-b", "xmlThing", "XML", "type", "about", "li"}
var rdfProps = []string{"_1", "_2", "value", "type", "first", "rest", "subject", "Statement", "nil", "li", "li", "li", "XMLLiteral", "foo"}
var rdfNodes = []string{"Seq", "Bag", "List", "Statement", "Property", "nil", "type", "_1"}

// NodeIDs are names of blank nodes, some of which a reader may make up itself.
var NodeIDs = []string{"a", "b", "A", "gen-1", "gen-2", "gen-3", "gen-4", "gen-1-first-in-seq", "gen-2-cons-0", "gen-3-cons-1", "é", "x.", "a.b", "_", "x·", "gen-1.", "b0", "genid1"}

// Bases are base IRIs.
var Bases = []string{"http://example.org/dir/file", "http://example.org/dir/file#frag", "http://example.org", "http://a/b/c/d;p?q", "file:///x/y", "http://example.org/dir/"}

var refs = []string{"", "#f", "x", "../y", "/z", "?q", "//h/p", "a/b/./c", "../../../up", "http://example.org/abs", "http://example.org/abs#g", "urn:a:b", "é", "x#", "."}

func (g *Gen) oneIn(n int, l string) bool { return gen.OneIn(g.T, n, l) }

func (g *Gen) nodeID() string {
	if g.oneIn(15, "nodeID.edge") {
		return EdgeName(g.T)
	}
	return gen.Pick(g.T, "nodeID", NodeIDs...)
}

func (g *Gen) ref() string {
	if g.oneIn(10, "ref.any") {
		return irix.Ref(g.T)
	}
	return gen.Pick(g.T, "ref", refs...)
}

// EdgeRune draws a character at or next to an edge of the ranges that names
// are made of.
func EdgeRune(t gen.D) rune {
	all := append(append([][2]rune{}, ncStart...), ncMore...)
	return gen.Pick(t, "edge.range", all...)[gen.Int(t, 0, 1, "edge.end")] + rune(gen.Int(t, -1, 1, "edge.off"))
}

// EdgeName draws a name that has such characters.
func EdgeName(t gen.D) string {
	for i := 0; i < 20; i++ {
		s := gen.Pick(t, "edge.head", "", "a", "_") + string(EdgeRune(t)) + gen.Pick(t, "edge.tail", "", "b", "1", "-", "\u0300")
		if NCName(s) {
			return s
		}
	}
	return "edge"
}

// NoName draws a text that is not a name, as of some such character.
func NoName(t gen.D) string {
	for i := 0; i < 20; i++ {
		s := gen.Pick(t, "edge.head", "", "", "a", "_", "averylongnameofanode") + string(EdgeRune(t)) + gen.Pick(t, "edge.tail", "", "b", "1", "-", "\u0300")
		if !NCName(s) {
			return s
		}
	}
	return ""
}

func (g *Gen) id() string {
	if g.oneIn(15, "id.edge") {
		return EdgeName(g.T)
	}
	if g.oneIn(12, "id.few") {
		return gen.Pick(g.T, "id.name", "a", "b", "é", "x.y", "_1")
	}
	return fmt.Sprintf("id%d", gen.Int(g.T, 0, 1<<30, "id"))
}

func xmlText(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 0x20 && r != '\t' && r != '\n' && r != '\r' || r == 0xFFFE || r == 0xFFFF {
			return '?'
		}
		return r
	}, s)
}

func (g *Gen) text(max int) string { return xmlText(gen.Text(g.T, max, "text")) }

func (g *Gen) literalText() string {
	switch gen.Int(g.T, 0, 5, "lit") {
	case 0:
		return gen.Pick(g.T, "special", " ", "\n  ", "]]>", "<a/>", "&amp;", " x ", "a\r\nb", "\t", "\u00a0")
	case 1:
		return g.text(6)
	}
	if g.oneIn(60, "longtext") {
		return strings.Repeat(gen.Pick(g.T, "unit", "x", "é ", "\n", "a&b<c ", "]]"), gen.Pick(g.T, "times", 100, 1000, 5000, 40000))
	}
	return gen.Pick(g.T, "plain", "x", "y", "hello world", "1", "true", " a  b ", "a \n")
}

// filler adds what may stand between elements.
func (g *Gen) filler(kids []*Node) []*Node {
	for g.oneIn(4, "filler") {
		switch gen.Int(g.T, 0, 5, "fill") {
		case 0:
			kids = append(kids, &Node{Kind: Comment, Text: gen.Pick(g.T, "comment", "", " c ", "<a>", "-x")})
		case 1:
			kids = append(kids, &Node{Kind: PI, Text: gen.Pick(g.T, "pi", "t x", "php echo '<a>'", "t ")})
		default:
			kids = append(kids, &Node{Kind: Text, Text: gen.Pick(g.T, "ws", " ", "\n", "\n\t", "\r\n ")})
		}
	}
	return kids
}

// comments adds comments and processing instructions only.
func (g *Gen) comments(kids []*Node) []*Node {
	for _, k := range g.filler(nil) {
		if k.Kind != Text {
			kids = append(kids, k)
		}
	}
	return kids
}

func (g *Gen) xmlAttrs(e *Node) {
	if g.oneIn(6, "lang") {
		e.Attrs = append(e.Attrs, Attr{XMLNS, "lang", gen.Pick(g.T, "langv", "en", "en-US", "", "de", "x-a")})
	}
	if g.oneIn(10, "xmlbase") {
		v := gen.Pick(g.T, "basev", Bases...)
		if g.oneIn(3, "relbase") {
			v = gen.Pick(g.T, "relbasev", refs...)
		}
		e.Attrs = append(e.Attrs, Attr{XMLNS, "base", v})
	}
	if g.oneIn(20, "space") {
		e.Attrs = append(e.Attrs, Attr{XMLNS, "space", "preserve"})
	}
	if g.oneIn(30, "xmlfoo") {
		e.Attrs = append(e.Attrs, Attr{"", gen.Pick(g.T, "xmlname", "xmlfoo", "XMLabc", "xml"), "ignored"})
	}
}

func (g *Gen) rdf(local, value string) Attr {
	if legacy[local] && g.oneIn(12, "legacy") {
		return Attr{"", local, value}
	}
	return Attr{RDF, local, value}
}

func (g *Gen) propertyAttrs(e *Node) {
	seen := map[string]bool{}
	for g.oneIn(3, "propattr") {
		a := Attr{gen.Pick(g.T, "ns", namespaces...), gen.Pick(g.T, "local", locals...), g.literalText()}
		switch gen.Int(g.T, 0, 5, "propattr.kind") {
		case 0:
			a = g.rdf("type", g.ref())
		case 1:
			a = Attr{RDF, gen.Pick(g.T, "rdfattr", "_1", "value", "first", "nil", "foo"), g.literalText()}
		}
		k := a.NS + " " + a.Local
		if a.Local == "type" && (a.NS == "" || a.NS == RDF) {
			k = "type"
		}
		if !seen[k] {
			seen[k] = true
			e.Attrs = append(e.Attrs, a)
		}
	}
}

func (g *Gen) shuffle(e *Node) {
	for i := len(e.Attrs) - 1; i > 0; i-- {
		j := gen.Int(g.T, 0, i, "shuffle")
		e.Attrs[i], e.Attrs[j] = e.Attrs[j], e.Attrs[i]
	}
}

// Node draws a node element.
func (g *Gen) Node(depth int) *Node {
	g.Budget--
	e := &Node{NS: RDF, Local: "Description", Role: "node"}
	switch gen.Int(g.T, 0, 5, "node.name") {
	case 0:
		e.Local = gen.Pick(g.T, "rdfnode", rdfNodes...)
	case 1, 2:
		e.NS, e.Local = gen.Pick(g.T, "ns", namespaces...), gen.Pick(g.T, "local", locals...)
	}
	g.xmlAttrs(e)
	switch gen.Int(g.T, 0, 6, "subject") {
	case 0, 1, 2:
		e.Attrs = append(e.Attrs, g.rdf("about", g.ref()))
	case 3:
		e.Attrs = append(e.Attrs, g.rdf("ID", g.id()))
	case 4:
		e.Attrs = append(e.Attrs, g.rdf("nodeID", g.nodeID()))
	}
	g.propertyAttrs(e)
	g.shuffle(e)
	e.Kids = g.properties(depth)
	return e
}

func (g *Gen) properties(depth int) []*Node {
	kids := g.filler(nil)
	max := 4
	if depth > 3 {
		max = 1
	}
	n := gen.Int(g.T, 0, max, "nprops")
	if depth == 0 && g.oneIn(40, "many") {
		n = gen.Int(g.T, 8, 16, "manyprops")
		g.Budget += n
	}
	for ; n > 0 && g.Budget > 0; n-- {
		kids = g.filler(append(kids, g.Property(depth)))
	}
	return kids
}

// Property draws a property element.
func (g *Gen) Property(depth int) *Node {
	g.Budget--
	e := &Node{NS: gen.Pick(g.T, "ns", namespaces...), Local: gen.Pick(g.T, "local", locals...)}
	if g.oneIn(3, "rdfprop") {
		e.NS, e.Local = RDF, gen.Pick(g.T, "rdfproplocal", rdfProps...)
	}
	g.xmlAttrs(e)
	if g.oneIn(5, "reify") {
		e.Attrs = append(e.Attrs, g.rdf("ID", g.id()))
	}
	kind := gen.Int(g.T, 0, 9, "prop.kind")
	if depth > 5 && kind > 4 && kind < 8 {
		kind = 0
	}
	switch kind {
	case 0, 1:
		e.Role = "literal"
		s := g.literalText()
		if g.oneIn(3, "datatype") {
			e.Attrs = append(e.Attrs, Attr{RDF, "datatype", gen.Pick(g.T, "dt", XSD+"integer", XSD+"string", "urn:dt", "http://example.org/dt#é", RDF+"HTML")})
			if g.oneIn(4, "emptytyped") {
				s, e.Role = "", "empty"
			}
		}
		rs := []rune(s)
		// Cut into short pieces with a comment between any two.
		pieces := len(rs) < 100 && g.oneIn(6, "pieces")
		for len(rs) > 0 {
			n := len(rs)
			if pieces {
				n = 1
				for n < len(rs) && (rs[n] == ' ') == (rs[0] == ' ') && gen.Bool(g.T, "longer") {
					n++
				}
				e.Kids = append(e.Kids, gen.Pick(g.T, "between", &Node{Kind: Comment, Text: ""}, &Node{Kind: Comment, Text: " - "}, &Node{Kind: PI, Text: "t "}))
			} else if g.oneIn(4, "split") {
				n = gen.Int(g.T, 1, len(rs), "at")
			}
			e.Kids = append(g.comments(e.Kids), &Node{Kind: Text, Text: string(rs[:n])})
			rs = rs[n:]
		}
		e.Kids = g.comments(e.Kids)
	case 2, 3, 4:
		e.Role = "empty"
		switch gen.Int(g.T, 0, 3, "object") {
		case 0:
			e.Attrs = append(e.Attrs, g.rdf("resource", g.ref()))
		case 1:
			e.Attrs = append(e.Attrs, g.rdf("nodeID", g.nodeID()))
		}
		g.propertyAttrs(e)
		e.Kids = g.comments(nil)
	case 5:
		e.Role = "resource"
		e.Kids = append(g.filler(nil), g.Node(depth+1))
		e.Kids = g.filler(e.Kids)
	case 6:
		e.Role = "ptresource"
		e.Attrs = append(e.Attrs, g.rdf("parseType", "Resource"))
		e.Kids = g.properties(depth + 1)
	case 7:
		e.Role = "ptcollection"
		e.Attrs = append(e.Attrs, g.rdf("parseType", "Collection"))
		e.Kids = g.filler(nil)
		n := gen.Int(g.T, 0, 3, "items")
		if depth == 0 && g.oneIn(6, "longlist") {
			n = gen.Int(g.T, 4, 12, "manyitems")
			g.Budget += n + 4
		}
		for ; n > 0; n-- {
			e.Kids = g.filler(append(e.Kids, g.Node(depth+2)))
		}
	default:
		e.Role = "ptliteral"
		e.Attrs = append(e.Attrs, g.rdf("parseType", gen.Pick(g.T, "pt", "Literal", "Literal", "Literal", "literal", "daml:collection", "")))
		e.Kids = g.xmlContent(0)
	}
	g.shuffle(e)
	return e
}

// chain draws nodes within each other, languages and bases changing on the way
// in, with a statement of their own after and before what is inside.
func (g *Gen) chain(n int) *Node {
	scope := func(e *Node) {
		if g.oneIn(2, "chain.lang") {
			e.Attrs = append(e.Attrs, Attr{XMLNS, "lang", gen.Pick(g.T, "langv", "en", "en-US", "", "de", "x-a")})
		}
		if g.oneIn(2, "chain.base") {
			e.Attrs = append(e.Attrs, Attr{XMLNS, "base", gen.Pick(g.T, "basev", "http://example.org/dir/file", "http://a/b/c/d;p?q", "x/", "y/", "../", "")})
		}
	}
	e := &Node{NS: RDF, Local: "Description", Role: "node"}
	scope(e)
	if g.oneIn(3, "chain.about") {
		e.Attrs = append(e.Attrs, Attr{RDF, "about", gen.Pick(g.T, "ref", "", "x", "#f", "../y")})
	}
	lit := func() {
		if g.oneIn(2, "chain.lit") {
			e.Kids = append(e.Kids, &Node{NS: namespaces[0], Local: "q", Role: "literal", Kids: []*Node{{Kind: Text, Text: gen.Pick(g.T, "chain.text", "x", "y")}}})
		}
	}
	lit()
	if n > 0 {
		p := &Node{NS: gen.Pick(g.T, "ns", namespaces...), Local: "p", Role: "resource"}
		if g.oneIn(3, "chain.li") {
			p.NS, p.Local = RDF, "li"
		}
		scope(p)
		switch gen.Int(g.T, 0, 3, "chain.kind") {
		case 0:
			p.Role = "ptcollection"
			p.Attrs = append(p.Attrs, Attr{RDF, "parseType", "Collection"})
			p.Kids = []*Node{g.chain(n - 1)}
		case 1:
			p.Role = "ptresource"
			p.Attrs = append(p.Attrs, Attr{RDF, "parseType", "Resource"})
			q := &Node{NS: namespaces[0], Local: "in", Role: "resource", Kids: []*Node{g.chain(n - 1)}}
			p.Kids = []*Node{q}
		default:
			p.Kids = []*Node{g.chain(n - 1)}
		}
		e.Kids = append(e.Kids, p)
		lit()
	}
	return e
}

// xmlContent draws the content of an XML literal.
func (g *Gen) xmlContent(depth int) []*Node {
	var kids []*Node
	for n := gen.Int(g.T, 0, 3, "xml.n"); n > 0; n-- {
		switch gen.Int(g.T, 0, 6, "xml.kind") {
		case 0:
			kids = append(kids, &Node{Kind: Comment, Text: gen.Pick(g.T, "comment", "", " c ", "<a>")})
		case 1:
			kids = append(kids, &Node{Kind: PI, Text: gen.Pick(g.T, "pi", "t x", "php echo '<a>'", "t ")})
		case 2, 3:
			if s := g.literalText(); s != "" {
				kids = append(kids, &Node{Kind: Text, Text: s})
			}
		default:
			e := &Node{NS: gen.Pick(g.T, "xml.ns", append([]string{"", "", RDF}, namespaces...)...), Local: gen.Pick(g.T, "xml.local", locals...)}
			seen := map[string]bool{}
			for g.oneIn(3, "xml.attr") {
				a := Attr{gen.Pick(g.T, "xml.attrns", append([]string{"", "", XMLNS, RDF}, namespaces...)...), gen.Pick(g.T, "xml.attrlocal", "lang", "a", "é", "about", "x-y"), g.literalText()}
				if k := a.NS + " " + a.Local; !seen[k] {
					seen[k] = true
					e.Attrs = append(e.Attrs, a)
				}
			}
			if depth < 3 {
				e.Kids = g.xmlContent(depth + 1)
			}
			kids = append(kids, e)
		}
	}
	return kids
}

// Document draws a document and a base IRI to read it with, which is "" in
// some cases.
func (g *Gen) Document() (*Node, string) {
	base := gen.Pick(g.T, "base", Bases...)
	var root *Node
	if g.oneIn(8, "noRDF") {
		root = g.Node(0)
	} else {
		root = &Node{NS: RDF, Local: "RDF", Role: "root"}
		g.xmlAttrs(root)
		root.Kids = g.filler(nil)
		for n := gen.Int(g.T, 0, 4, "nodes"); n > 0 && g.Budget > 0; n-- {
			root.Kids = g.filler(append(root.Kids, g.Node(0)))
		}
	}
	if root.Local == "RDF" && root.Role == "root" && g.oneIn(25, "chain") {
		root.Kids = g.filler(append(root.Kids, g.chain(gen.Int(g.T, 8, 40, "links"))))
	}
	if g.oneIn(6, "nobase") {
		if root.Attr(XMLNS, "base") == nil {
			root.Attrs = append(root.Attrs, Attr{XMLNS, "base", base})
			base = ""
		}
	}
	return root, base
}

// ---- writing ----

type writer struct {
	t gen.D
	b strings.Builder
}

// Write spells a document: prefixes, quotes, escapes, CDATA sections and what
// stands around the root.
func Write(t gen.D, root *Node) string {
	w := &writer{t: t}
	if gen.OneIn(t, 3, "xmldecl") {
		w.b.WriteString(`<?xml version="1.0"` + gen.Pick(t, "enc", "", ` encoding="utf-8"`) + "?>")
	}
	misc := func() {
		for gen.OneIn(t, 5, "misc") {
			w.b.WriteString(gen.Pick(t, "miscv", "\n", " ", "<!-- c -->", "<?t x?>"))
		}
	}
	misc()
	if gen.OneIn(t, 20, "doctype") {
		w.b.WriteString("<!DOCTYPE x>")
		misc()
	}
	w.node(root, map[string]string{"": "", "xml": XMLNS})
	misc()
	return w.b.String()
}

var prefixes = []string{"ex", "a", "b", "ns0", "é", "r", "rdf"}

func (w *writer) node(n *Node, env map[string]string) {
	switch n.Kind {
	case Text:
		w.text(n.Text)
		return
	case Comment:
		w.b.WriteString("<!--" + n.Text + "-->")
		return
	case PI:
		w.b.WriteString("<?" + strings.TrimRight(n.Text, " ") + "?>")
		return
	}
	mine := map[string]string{}
	used := map[string]bool{}
	pick := func(ns string, attr bool) string {
		if ns == XMLNS {
			return "xml"
		}
		if attr && ns == "" {
			return ""
		}
		get := func(p string) (string, bool) {
			if v, ok := mine[p]; ok {
				return v, true
			}
			v, ok := env[p]
			return v, ok
		}
		var have []string
		for _, p := range append([]string{""}, prefixes...) {
			if v, ok := get(p); ok && v == ns && !(attr && p == "") {
				have = append(have, p)
			}
		}
		if ns == "" { // only the default namespace can be none
			if v, _ := get(""); v == "" {
				used[""] = true
				return ""
			}
			mine[""] = ""
			used[""] = true
			return ""
		}
		if len(have) > 0 && !gen.OneIn(w.t, 12, "redeclare") {
			p := have[0]
			if len(have) > 1 {
				p = gen.Pick(w.t, "which", have...)
			}
			used[p] = true
			return p
		}
		cands := prefixes
		if ns == RDF {
			cands = []string{"rdf", "rdf", "rdf", "r", "ex"}
		}
		if !attr {
			cands = append([]string{""}, cands...)
		}
		p := gen.Pick(w.t, "prefix", cands...)
		for i := 0; used[p] || mine[p] != ""; i++ {
			p = prefixes[i%len(prefixes)]
			if i >= len(prefixes) {
				p = fmt.Sprintf("p%d", i)
			}
		}
		if _, ok := mine[p]; ok {
			p = "only"
		}
		mine[p] = ns
		used[p] = true
		return p
	}
	q := func(p, local string) string {
		if p == "" {
			return local
		}
		return p + ":" + local
	}
	name := q(pick(n.NS, false), n.Local)
	var parts []string
	for _, a := range n.Attrs {
		parts = append(parts, q(pick(a.NS, true), a.Local)+"="+w.value(a.Value))
	}
	for _, p := range append([]string{"", "only"}, append(prefixes, "p7", "p8", "p9", "p10", "p11", "p12")...) {
		if ns, ok := mine[p]; ok {
			d := "xmlns"
			if p != "" {
				d += ":" + p
			}
			at := gen.Int(w.t, 0, len(parts), "declat")
			parts = append(parts[:at], append([]string{d + "=" + w.value(ns)}, parts[at:]...)...)
		}
	}
	w.b.WriteString("<" + name)
	for _, p := range parts {
		w.b.WriteString(gen.Pick(w.t, "sep", " ", " ", " ", "\n\t") + p)
	}
	if len(n.Kids) == 0 && gen.Bool(w.t, "selfclose") {
		w.b.WriteString("/>")
		return
	}
	w.b.WriteString(">")
	inner := map[string]string{}
	for k, v := range env {
		inner[k] = v
	}
	for k, v := range mine {
		inner[k] = v
	}
	for _, k := range n.Kids {
		w.node(k, inner)
	}
	w.b.WriteString("</" + name + gen.Pick(w.t, "endws", "", "", "", " ") + ">")
}

func (w *writer) value(s string) string {
	q := gen.Pick(w.t, "quote", "\"", "'")
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '&':
			b.WriteString(gen.Pick(w.t, "amp", "&amp;", "&#38;"))
		case r == '<':
			b.WriteString("&lt;")
		case string(r) == q || r == '\t' || r == '\n' || r == '\r':
			fmt.Fprintf(&b, "&#%d;", r)
		case len(s) < 12 && gen.OneIn(w.t, 20, "charref"):
			fmt.Fprintf(&b, "&#x%x;", r)
		default:
			b.WriteRune(r)
		}
	}
	return q + b.String() + q
}

func (w *writer) text(s string) {
	if !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") && gen.OneIn(w.t, 8, "cdata") {
		w.b.WriteString("<![CDATA[" + s + "]]>")
		return
	}
	for _, r := range s {
		switch {
		case r == '&':
			w.b.WriteString("&amp;")
		case r == '<':
			w.b.WriteString("&lt;")
		case r == '>':
			w.b.WriteString("&gt;")
		case r == '\r':
			w.b.WriteString("&#13;")
		case len(s) < 12 && r != ' ' && gen.OneIn(w.t, 20, "charref"):
			fmt.Fprintf(&w.b, "&#x%x;", r)
		default:
			w.b.WriteRune(r)
		}
	}
}
