// Package rx is a reference reading of RDF/XML 1.1 over XML trees, with
// generators of documents, a writer that picks prefixes, escapes and white
// space, and graph isomorphism.
package rx

import (
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/google/xtoproto/verifharness/irix"
)

const (
	RDF   = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	XMLNS = "http://www.w3.org/XML/1998/namespace"
	XSD   = "http://www.w3.org/2001/XMLSchema#"
)

type Attr struct{ NS, Local, Value string }

type Kind int

const (
	Element Kind = iota
	Text
	Comment
	PI
)

// A Node is an element, a text, a comment or a processing instruction.
type Node struct {
	Kind      Kind
	Text      string // also of comments; "target data" of PIs
	NS, Local string
	Attrs     []Attr
	Kids      []*Node
	// Role is what the generator made the element as: root, node, and for
	// property elements empty, literal, resource, ptresource, ptcollection,
	// ptliteral; inner elements of XML literals have none.
	Role string
}

func (n *Node) Name() string { return n.NS + n.Local }

// Attr finds an attribute.
func (n *Node) Attr(ns, local string) *string {
	for i := range n.Attrs {
		if n.Attrs[i].NS == ns && n.Attrs[i].Local == local {
			return &n.Attrs[i].Value
		}
	}
	return nil
}

// Clone copies the tree.
func (n *Node) Clone() *Node {
	c := *n
	c.Attrs = append([]Attr(nil), n.Attrs...)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return &c
}

// All lists the elements with a role, parents first.
func (n *Node) All() []*Node {
	var out []*Node
	if n.Kind == Element && n.Role != "" {
		out = append(out, n)
	}
	for _, k := range n.Kids {
		out = append(out, k.All()...)
	}
	return out
}

// Triple is a triple in which every term is spelled uniquely; blank nodes
// start with "_:".
type Triple [3]string

// Reading is what the specification makes of a document.
type Reading struct {
	Triples     []Triple
	Illegal     string // why the document is not RDF/XML
	Unspecified string // what it has that the specification leaves open
}

type illegal string
type unspecified string

func bad(f string, a ...interface{})  { panic(illegal(fmt.Sprintf(f, a...))) }
func open(f string, a ...interface{}) { panic(unspecified(fmt.Sprintf(f, a...))) }

type interp struct {
	triples []Triple
	n       int
	ids     map[string]bool
	open    string
}

type scope struct{ base, lang string }

// Interpret reads a document whose root element is given.
func Interpret(root *Node, base string) (r Reading) {
	in := &interp{ids: map[string]bool{}}
	defer func() {
		r.Triples, r.Unspecified = in.triples, in.open
		switch x := recover().(type) {
		case nil:
		case illegal:
			r.Illegal = string(x)
		case unspecified:
			r.Unspecified = string(x)
		default:
			panic(x)
		}
	}()
	sc := scope{base: stripFragment(base)}
	if root.Name() == RDF+"RDF" {
		sc = in.enter(root, sc)
		if as := attributes(root); len(as) > 0 {
			bad("rdf:RDF has the attribute %v", as[0])
		}
		in.nodes(root, sc)
		return
	}
	in.node(root, sc)
	return
}

func stripFragment(s string) string {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		return s[:i]
	}
	return s
}

func (in *interp) enter(e *Node, sc scope) scope {
	if v := e.Attr(XMLNS, "lang"); v != nil {
		sc.lang = *v
	}
	if v := e.Attr(XMLNS, "base"); v != nil {
		sc.base = stripFragment(in.resolve(*v, sc))
	}
	return sc
}

var legacy = map[string]bool{"ID": true, "about": true, "resource": true, "parseType": true, "type": true}

// attributes are those that count, with their names put right.
func attributes(e *Node) []Attr {
	var out []Attr
	for _, a := range e.Attrs {
		switch {
		case a.NS == XMLNS:
		case a.NS != "":
			out = append(out, a)
		case len(a.Local) >= 3 && strings.EqualFold(a.Local[:3], "xml"):
		case legacy[a.Local]:
			out = append(out, Attr{RDF, a.Local, a.Value})
		default:
			bad("attribute %s without a namespace", a.Local)
		}
	}
	for i := range out {
		for j := range out[:i] {
			if out[i].NS == out[j].NS && out[i].Local == out[j].Local {
				open("the attribute %s twice", out[i].Local)
			}
		}
	}
	return out
}

func (in *interp) resolve(ref string, sc scope) string {
	if !irix.Escapes(ref) || !irix.Derivable(ref) {
		bad("%q is not an IRI reference", ref)
	}
	if !irix.EscapesUTF8(ref) {
		open("escapes of %q are not UTF-8", ref)
	}
	if sc.base == "" && irix.Split(ref).Scheme == nil {
		open("relative reference %q without a base", ref)
	}
	if ref == "" {
		return sc.base
	}
	p, _ := irix.Resolve(sc.base, ref)
	s := p.String()
	if !irix.Absolute(s) || (p.Authority == nil && strings.HasPrefix(p.Path, "//")) {
		open("%q against %q gives no IRI", ref, sc.base)
	}
	if strings.Contains(ref, "%") {
		// Splitting and normalizing may not commute.
		n, ok := irix.Normalize(s)
		if !ok {
			open("escapes of %q are not UTF-8", s)
		}
		s = n
	}
	return s
}

var ncStart = [][2]rune{{'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF},
	{0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}}
var ncMore = [][2]rune{{'-', '.'}, {'0', '9'}, {0xB7, 0xB7}, {0x300, 0x36F}, {0x203F, 0x2040}}

func within(r rune, rs [][2]rune) bool {
	for _, x := range rs {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	return false
}

// NCName reports whether s is one.
func NCName(s string) bool {
	for i, r := range s {
		if !within(r, ncStart) && (i == 0 || !within(r, ncMore)) {
			return false
		}
	}
	return s != ""
}

func iri(s string) string { return "<" + s + ">" }

func (in *interp) fresh() string {
	in.n++
	return fmt.Sprintf("_:fresh %d", in.n)
}

func (in *interp) add(s, p, o string) { in.triples = append(in.triples, Triple{s, p, o}) }

func literal(s, lang string) string {
	if lang == "" {
		return strconv.Quote(s) + "^^<" + XSD + "string>"
	}
	return strconv.Quote(s) + "@" + lang
}

func typed(s, dt string) string { return strconv.Quote(s) + "^^<" + dt + ">" }

func (in *interp) id(v string, sc scope) string {
	if !NCName(v) {
		bad("rdf:ID %q is not a name", v)
	}
	u := in.resolve("#"+v, sc)
	if in.ids[u] {
		bad("rdf:ID %q again", v)
	}
	in.ids[u] = true
	return iri(u)
}

func nodeID(v string) string {
	if !NCName(v) {
		bad("rdf:nodeID %q is not a name", v)
	}
	return "_:named " + v
}

var core = map[string]bool{"RDF": true, "ID": true, "about": true, "parseType": true, "resource": true, "nodeID": true, "datatype": true, "aboutEach": true, "aboutEachPrefix": true, "bagID": true}

func forbidden(n, what string, more string) {
	if strings.HasPrefix(n, RDF) {
		if l := n[len(RDF):]; core[l] || l != "" && strings.Contains(more, l) {
			bad("rdf:%s as the name of a %s", l, what)
		}
	}
}

func space(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

// elements are the child elements of one that may hold no text.
func elements(e *Node) []*Node {
	var out []*Node
	for _, k := range e.Kids {
		switch k.Kind {
		case Element:
			out = append(out, k)
		case Text:
			if !space(k.Text) {
				bad("text %q within %s", k.Text, e.Local)
			}
		}
	}
	return out
}

func (in *interp) nodes(e *Node, sc scope) []string {
	var out []string
	for _, k := range elements(e) {
		out = append(out, in.node(k, sc))
	}
	return out
}

func (in *interp) node(e *Node, sc scope) string {
	forbidden(e.Name(), "node element", "li")
	if e.NS == "" {
		in.open = "a node element without a namespace"
	}
	sc = in.enter(e, sc)
	subject := ""
	var props []Attr
	for _, a := range attributes(e) {
		s := ""
		switch a.NS + a.Local {
		case RDF + "ID":
			s = in.id(a.Value, sc)
		case RDF + "nodeID":
			s = nodeID(a.Value)
		case RDF + "about":
			s = iri(in.resolve(a.Value, sc))
		default:
			props = append(props, a)
			continue
		}
		if subject != "" {
			bad("two subjects")
		}
		subject = s
	}
	if subject == "" {
		subject = in.fresh()
	}
	if e.Name() != RDF+"Description" {
		in.add(subject, iri(RDF+"type"), iri(e.Name()))
	}
	in.propertyAttributes(subject, props, sc)
	in.properties(e, subject, sc)
	return subject
}

func (in *interp) propertyAttributes(subject string, props []Attr, sc scope) {
	for _, a := range props {
		n := a.NS + a.Local
		if strings.HasPrefix(n, RDF) {
			if l := n[len(RDF):]; core[l] || l == "Description" || l == "li" {
				bad("rdf:%s as the name of a property attribute", l)
			}
		}
		if n == RDF+"type" {
			in.add(subject, iri(n), iri(in.resolve(a.Value, sc)))
		} else {
			in.add(subject, iri(n), literal(a.Value, sc.lang))
		}
	}
}

func (in *interp) properties(e *Node, subject string, sc scope) {
	li := 0
	for _, k := range elements(e) {
		in.property(k, subject, &li, sc)
	}
}

func (in *interp) property(e *Node, subject string, li *int, sc scope) {
	forbidden(e.Name(), "property element", "Description")
	if e.NS == "" {
		in.open = "a property element without a namespace"
	}
	pred := e.Name()
	if pred == RDF+"li" {
		*li++
		pred = fmt.Sprintf("%s_%d", RDF, *li)
	}
	sc = in.enter(e, sc)
	as := map[string]string{}
	var props []Attr
	for _, a := range attributes(e) {
		n := a.NS + a.Local
		switch n {
		case RDF + "ID", RDF + "resource", RDF + "nodeID", RDF + "datatype", RDF + "parseType":
			as[a.Local] = a.Value
		default:
			props = append(props, a)
		}
	}
	only := func(what string, names ...string) {
		n := 0
		for _, x := range names {
			if _, ok := as[x]; ok {
				n++
			}
		}
		if n != len(as) || len(props) > 0 {
			bad("%s has other attributes: %v %v", what, as, props)
		}
	}
	state := func(o string) {
		in.add(subject, iri(pred), o)
		if v, ok := as["ID"]; ok {
			r := in.id(v, sc)
			in.add(r, iri(RDF+"type"), iri(RDF+"Statement"))
			in.add(r, iri(RDF+"subject"), subject)
			in.add(r, iri(RDF+"predicate"), iri(pred))
			in.add(r, iri(RDF+"object"), o)
		}
	}
	if pt, ok := as["parseType"]; ok {
		only("a parseType property", "ID", "parseType")
		switch pt {
		case "Resource":
			n := in.fresh()
			state(n)
			in.properties(e, n, sc)
		case "Collection":
			items := in.nodes(e, sc)
			tail := iri(RDF + "nil")
			for i := len(items) - 1; i >= 0; i-- {
				c := in.fresh()
				in.add(c, iri(RDF+"first"), items[i])
				in.add(c, iri(RDF+"rest"), tail)
				tail = c
			}
			state(tail)
		default:
			state(typed(Canonical(e.Kids), RDF+"XMLLiteral"))
		}
		return
	}
	text := ""
	var child *Node
	n := 0
	for _, k := range e.Kids {
		switch k.Kind {
		case Text:
			text += k.Text
		case Element:
			n++
			child = k
		}
	}
	switch {
	case n > 1:
		bad("two nodes in one property element")
	case n == 1:
		if !space(text) {
			bad("text %q beside a node", text)
		}
		only("a resource property", "ID")
		state(in.node(child, sc))
	case text != "":
		if space(text) && (len(props) > 0 || as["resource"] != "" || as["nodeID"] != "") {
			open("white space in an empty property element")
		}
		only("a literal property", "ID", "datatype")
		if dt, ok := as["datatype"]; ok {
			state(typed(text, in.datatype(dt)))
			return
		}
		state(literal(text, sc.lang))
	default:
		dt, hasDT := as["datatype"]
		res, hasRes := as["resource"]
		nid, hasNid := as["nodeID"]
		if hasRes && hasNid || hasDT && (hasRes || hasNid) {
			bad("two objects")
		}
		if hasDT {
			// Checked before the choice, as they are wrong either way.
			in.propertyAttributes("_:x", props, sc)
			if len(props) > 0 {
				open("datatype with property attributes")
			}
			state(typed("", in.datatype(dt)))
			return
		}
		if !hasRes && !hasNid && len(props) == 0 {
			state(literal("", sc.lang))
			return
		}
		o := ""
		switch {
		case hasRes:
			o = iri(in.resolve(res, sc))
		case hasNid:
			o = nodeID(nid)
		default:
			o = in.fresh()
		}
		in.propertyAttributes(o, props, sc)
		state(o)
	}
}

func (in *interp) datatype(s string) string {
	if !irix.Escapes(s) || !irix.Derivable(s) {
		bad("%q is not an IRI", s)
	}
	if !irix.Absolute(s) || strings.Contains(s, "%") {
		open("datatype %q", s)
	}
	if s == RDF+"langString" {
		open("datatype rdf:langString")
	}
	return s
}

// Canonical is a unique spelling of the content of an XML literal.
func Canonical(kids []*Node) string {
	var b strings.Builder
	canonical(&b, kids)
	return b.String()
}

func canonical(b *strings.Builder, kids []*Node) {
	text := ""
	flush := func() {
		if text != "" {
			b.WriteString(strconv.Quote(text))
		}
		text = ""
	}
	for _, k := range kids {
		if k.Kind == Text {
			text += k.Text
			continue
		}
		flush()
		switch k.Kind {
		case Comment:
			fmt.Fprintf(b, "!%q", k.Text)
		case PI:
			fmt.Fprintf(b, "?%q", k.Text)
		case Element:
			fmt.Fprintf(b, "<{%s}%s", k.NS, k.Local)
			var as []string
			for _, a := range k.Attrs {
				as = append(as, fmt.Sprintf(" {%s}%s=%q", a.NS, a.Local, a.Value))
			}
			sort.Strings(as)
			b.WriteString(strings.Join(as, "") + ">")
			canonical(b, k.Kids)
			b.WriteString("</>")
		}
	}
	flush()
}

// CanonicalText gives the unique spelling of an XML literal's lexical form;
// the second result says why it is not one.
func CanonicalText(s string) (string, string) {
	d := xml.NewDecoder(strings.NewReader("<x>" + s + "</x>"))
	top := &Node{}
	stack := []*Node{top}
	envs := []map[string]string{{"": "", "xml": XMLNS}}
	var names []string
	for {
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return "", fmt.Sprintf("%q is not XML: %v", s, err)
		}
		cur := stack[len(stack)-1]
		switch t := tok.(type) {
		case xml.CharData:
			cur.Kids = append(cur.Kids, &Node{Kind: Text, Text: string(t)})
		case xml.Comment:
			cur.Kids = append(cur.Kids, &Node{Kind: Comment, Text: string(t)})
		case xml.ProcInst:
			cur.Kids = append(cur.Kids, &Node{Kind: PI, Text: t.Target + " " + string(t.Inst)})
		case xml.Directive:
			return "", fmt.Sprintf("%q has a directive", s)
		case xml.StartElement:
			env := map[string]string{}
			for k, v := range envs[len(envs)-1] {
				env[k] = v
			}
			for _, a := range t.Attr {
				switch {
				case a.Name.Space == "" && a.Name.Local == "xmlns":
					env[""] = a.Value
				case a.Name.Space == "xmlns":
					env[a.Name.Local] = a.Value
				}
			}
			ns, ok := env[t.Name.Space]
			if !ok {
				return "", fmt.Sprintf("%q uses the undeclared prefix %q", s, t.Name.Space)
			}
			e := &Node{NS: ns, Local: t.Name.Local}
			seen := map[string]bool{}
			for _, a := range t.Attr {
				key := a.Name.Space + ":" + a.Name.Local
				if a.Name.Space == "" && a.Name.Local == "xmlns" || a.Name.Space == "xmlns" {
					if seen[key] {
						return "", fmt.Sprintf("%q declares %s twice", s, key)
					}
					seen[key] = true
					continue
				}
				ns := ""
				if a.Name.Space != "" {
					if ns, ok = env[a.Name.Space]; !ok {
						return "", fmt.Sprintf("%q uses the undeclared prefix %q", s, a.Name.Space)
					}
				}
				if key = "{" + ns + "}" + a.Name.Local; seen[key] {
					return "", fmt.Sprintf("%q has the attribute %s twice", s, key)
				}
				seen[key] = true
				e.Attrs = append(e.Attrs, Attr{ns, a.Name.Local, a.Value})
			}
			cur.Kids = append(cur.Kids, e)
			stack, envs, names = append(stack, e), append(envs, env), append(names, t.Name.Space+":"+t.Name.Local)
		case xml.EndElement:
			if len(names) == 0 || names[len(names)-1] != t.Name.Space+":"+t.Name.Local {
				return "", fmt.Sprintf("%q has an end tag too many", s)
			}
			stack, envs, names = stack[:len(stack)-1], envs[:len(envs)-1], names[:len(names)-1]
		}
	}
	if len(names) != 0 || len(top.Kids) != 1 || top.Kids[0].Kind != Element {
		return "", fmt.Sprintf("%q is not balanced", s)
	}
	return Canonical(top.Kids[0].Kids), ""
}

// Isomorphic reports whether the sets of triples are equal up to the names of
// blank nodes.
func Isomorphic(a, b []Triple) bool {
	a, b = dedupe(a), dedupe(b)
	if len(a) != len(b) {
		return false
	}
	return match(a, b, map[string]string{}, map[string]string{})
}

func dedupe(ts []Triple) []Triple {
	seen := map[Triple]bool{}
	var out []Triple
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

func blank(s string) bool { return strings.HasPrefix(s, "_:") }

// colors refines the blank nodes' colors, starting from the fixed ones.
func colors(ts []Triple, fixed map[string]string) map[string]string {
	c := map[string]string{}
	for _, t := range ts {
		for _, x := range []string{t[0], t[2]} {
			if blank(x) {
				c[x] = fixed[x]
			}
		}
	}
	for round, classes := 0, -1; round <= len(c)+1; round++ {
		sig := map[string][]string{}
		of := func(x string) string {
			if blank(x) {
				return "_:" + c[x]
			}
			return x
		}
		for _, t := range ts {
			self := ""
			if t[0] == t[2] {
				self = "self"
			}
			if blank(t[0]) {
				sig[t[0]] = append(sig[t[0]], "s"+self+t[1]+" "+of(t[2]))
			}
			if blank(t[2]) {
				sig[t[2]] = append(sig[t[2]], "o"+self+t[1]+" "+of(t[0]))
			}
		}
		next := map[string]string{}
		distinct := map[string]bool{}
		for x, l := range sig {
			sort.Strings(l)
			next[x] = hash(c[x] + "|" + strings.Join(l, "|"))
			distinct[next[x]] = true
		}
		c = next
		if len(distinct) == classes {
			break
		}
		classes = len(distinct)
	}
	return c
}

func hash(s string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
		h ^= h >> 29
	}
	return strconv.FormatUint(h, 36)
}

func match(a, b []Triple, fa, fb map[string]string) bool {
	// Both need the same number of rounds to be comparable; colors stops by
	// the number of classes, which isomorphic graphs share.
	ca, cb := colors(a, fa), colors(b, fb)
	ga, gb := group(ca), group(cb)
	if len(ga) != len(gb) {
		return false
	}
	pick := ""
	for k, xs := range ga {
		if len(gb[k]) != len(xs) {
			return false
		}
		if len(xs) > 1 && (pick == "" || k < pick) {
			pick = k
		}
	}
	if pick == "" {
		m := map[string]string{}
		for k, xs := range ga {
			m[xs[0]] = gb[k][0]
		}
		set := map[Triple]bool{}
		for _, t := range b {
			set[t] = true
		}
		for _, t := range a {
			for _, i := range []int{0, 2} {
				if blank(t[i]) {
					t[i] = m[t[i]]
				}
			}
			if !set[t] {
				return false
			}
		}
		return true
	}
	x := ga[pick][0]
	for _, y := range gb[pick] {
		na, nb := clone(ca), clone(cb)
		na[x], nb[y] = "picked"+pick, "picked"+pick
		if match(a, b, na, nb) {
			return true
		}
	}
	return false
}

func clone(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func group(c map[string]string) map[string][]string {
	g := map[string][]string{}
	for x, k := range c {
		g[k] = append(g[k], x)
	}
	for _, xs := range g {
		sort.Strings(xs)
	}
	return g
}

// Show prints a graph.
func Show(ts []Triple) string {
	var ls []string
	for _, t := range dedupe(ts) {
		ls = append(ls, "  "+strings.Join(t[:], " "))
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}
