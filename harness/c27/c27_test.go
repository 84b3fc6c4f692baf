package c27

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/protocx"
	"github.com/google/xtoproto/verifharness/tab"
	"github.com/google/xtoproto/xmlinfer"
	"google.golang.org/protobuf/types/descriptorpb"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "batches of random XML documents (several roots, repeated and recursive elements, names that clash or that protocol buffers do not allow, namespaces, numbers, near-numbers and texts in attributes and elements, CDATA, comments and entities), whose inferred files are compiled by one protoc run and compared with a reference through the descriptors, and documents with one fault; every batch and every document counts as an evaluation; non-trivial: a batch, or a document with at least one message; distinct by document")
}

// A shape is what inference should know about one element of a message.
type shape struct {
	name     xml.Name
	count    int
	attrs    []*values
	children []*child
	text     *values
}

type values struct {
	name   xml.Name
	counts map[string]int
	total  int
}

func (v *values) add(s string) { v.counts[s]++; v.total++ }

type child struct {
	*shape
	repeated bool
	cards    map[int]int
}

func newShape(n xml.Name) *shape {
	return &shape{name: n, text: &values{counts: map[string]int{}}}
}

func (s *shape) leaf() bool { return len(s.attrs) == 0 && len(s.children) == 0 }

// A node is an element of a parsed document.
type node struct {
	name  xml.Name
	attrs []xml.Attr
	kids  []*node
	text  string
}

// parse reads a document with the standard library.
func parse(doc string) ([]*node, error) {
	d := xml.NewDecoder(strings.NewReader(doc))
	root := &node{}
	stack := []*node{root}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return root.kids, nil
		}
		if err != nil {
			return nil, err
		}
		top := stack[len(stack)-1]
		switch t := tok.(type) {
		case xml.StartElement:
			n := &node{name: t.Name, attrs: append([]xml.Attr{}, t.Attr...)}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.text += string(t)
		}
	}
}

func (s *shape) observe(n *node) {
	s.count++
	for _, a := range n.attrs {
		var v *values
		for _, x := range s.attrs {
			if x.name == a.Name {
				v = x
			}
		}
		if v == nil {
			v = &values{name: a.Name, counts: map[string]int{}}
			s.attrs = append(s.attrs, v)
		}
		v.add(a.Value)
	}
	cards := map[*child]int{}
	for _, k := range n.kids {
		var c *child
		for _, x := range s.children {
			if x.name == k.name {
				c = x
			}
		}
		if c == nil {
			c = &child{shape: newShape(k.name), cards: map[int]int{}}
			s.children = append(s.children, c)
		}
		c.observe(k)
		cards[c]++
	}
	for c, n := range cards {
		c.repeated = c.repeated || n > 1
		c.cards[n]++
	}
	s.text.add(n.text)
}

func shapes(roots []*node) []*shape {
	var out []*shape
	for _, n := range roots {
		var s *shape
		for _, x := range out {
			if x.name == n.name {
				s = x
			}
		}
		if s == nil {
			s = newShape(n.name)
			out = append(out, s)
		}
		s.observe(n)
	}
	return out
}

func (v *values) typ() string {
	isInt, isFloat := true, true
	for s := range v.counts {
		isInt = isInt && tab.IsInt64(s)
		_, err := strconv.ParseFloat(s, 64)
		isFloat = isFloat && err == nil
	}
	switch {
	case isInt:
		return "int64"
	case isFloat:
		return "double"
	}
	return "string"
}

var plainRE = regexp.MustCompile(`^[a-z]+([-_][a-z]+)*$`)

// plain returns the camel-case form of names made of lower-case words.
func plain(local string) string {
	if !plainRE.MatchString(local) {
		return ""
	}
	ws := strings.FieldsFunc(local, func(r rune) bool { return r == '-' || r == '_' })
	for i := range ws[1:] {
		ws[i+1] = strings.ToUpper(ws[i+1][:1]) + ws[i+1][1:]
	}
	return strings.Join(ws, "")
}

func alnum(s string) string {
	return strings.ToLower(strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return -1
	}, s))
}

var headRE = regexp.MustCompile(`^ inferred type from (\d+) examples, (\d+) unique values(?: \(showing first (\d+)\):)?\n`)
var lineRE = regexp.MustCompile(`^ - (".*") \((\d+)\)$`)

// checkComment reads the comment of a scalar field back.
func (v *values) checkComment(c string, examples bool) string {
	m := headRE.FindStringSubmatch(c)
	if m == nil {
		return fmt.Sprintf("comment %q", c)
	}
	if m[1] != strconv.Itoa(v.total) || m[2] != strconv.Itoa(len(v.counts)) {
		return fmt.Sprintf("comment %q for %v", c, v.counts)
	}
	rest := strings.Split(strings.TrimSuffix(c[len(m[0]):], "\n"), "\n")
	if !examples {
		if m[3] != "" || len(rest) != 1 || rest[0] != "" {
			return fmt.Sprintf("comment %q shows examples", c)
		}
		return ""
	}
	n := len(v.counts)
	if n > 5 {
		n = 5
	}
	if m[3] != strconv.Itoa(n) || len(rest) != n {
		return fmt.Sprintf("comment %q for %v", c, v.counts)
	}
	var counts []int
	for _, k := range v.counts {
		counts = append(counts, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(counts)))
	seen := map[string]bool{}
	for i, l := range rest {
		m := lineRE.FindStringSubmatch(l)
		if m == nil {
			return fmt.Sprintf("comment line %q", l)
		}
		s, err := strconv.Unquote(m[1])
		if err != nil || seen[s] || v.counts[s] != counts[i] || m[2] != strconv.Itoa(counts[i]) {
			return fmt.Sprintf("comment line %q for %v", l, v.counts)
		}
		seen[s] = true
	}
	return ""
}

type file struct {
	fd       *descriptorpb.FileDescriptorProto
	pkg      string
	comments map[string]string // by path
	used     map[string]int
	examples bool
}

func (f *file) message(name string) (int, *descriptorpb.DescriptorProto) {
	for i, m := range f.fd.MessageType {
		if f.pkg+"."+m.GetName() == name {
			return i, m
		}
	}
	return 0, nil
}

func pathKey(p []int32) string { return fmt.Sprint(p) }

// match compares a message and all below it with a shape.
func (f *file) match(name string, s *shape) string {
	mi, m := f.message(name)
	if m == nil {
		return "no message " + name
	}
	f.used[name]++
	if len(m.NestedType) != 0 || len(m.EnumType) != 0 || len(m.OneofDecl) != 0 || len(m.Extension) != 0 {
		return name + " holds more than fields"
	}
	if want := fmt.Sprintf(" %d attrFields, %d elemFields: ", len(s.attrs), len(s.children)); !strings.HasPrefix(f.comments[pathKey([]int32{4, int32(mi)})], want) ||
		!strings.HasSuffix(strings.TrimSpace(f.comments[pathKey([]int32{4, int32(mi)})]), fmt.Sprintf(", based on %d examples", s.count)) {
		return fmt.Sprintf("%s: comment %q, want %d examples", name, f.comments[pathKey([]int32{4, int32(mi)})], s.count)
	}
	if len(m.Field) != len(s.attrs)+len(s.children) {
		return fmt.Sprintf("%s has %d fields, want %d attributes and %d elements", name, len(m.Field), len(s.attrs), len(s.children))
	}
	clash := map[string]int{}
	for _, a := range s.attrs {
		clash[alnum(a.name.Local)]++
	}
	for _, c := range s.children {
		clash[alnum(c.name.Local)]++
	}
	tags := map[int32]bool{}
	for i, fl := range m.Field {
		fname := name + "." + fl.GetName()
		comment := f.comments[pathKey([]int32{4, int32(mi), 2, int32(i)})]
		tags[fl.GetNumber()] = true
		var local string
		if i < len(s.attrs) {
			a := s.attrs[i]
			local = a.name.Local
			if fl.GetLabel() != descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL || protocx.TypeName(fl) != a.typ() {
				return fmt.Sprintf("%s: %v %s for attribute %v with %v", fname, fl.GetLabel(), protocx.TypeName(fl), a.name, a.counts)
			}
			if msg := a.checkComment(comment, f.examples); msg != "" {
				return fname + ": " + msg
			}
		} else {
			c := s.children[i-len(s.attrs)]
			local = c.name.Local
			want := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
			if c.repeated {
				want = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
			}
			if fl.GetLabel() != want {
				return fmt.Sprintf("%s is %v; element %v occurs %v times", fname, fl.GetLabel(), c.name, c.cards)
			}
			if c.leaf() {
				if protocx.TypeName(fl) != c.text.typ() {
					return fmt.Sprintf("%s: %s for element %v with %v", fname, protocx.TypeName(fl), c.name, c.text.counts)
				}
				if msg := c.text.checkComment(comment, f.examples); msg != "" {
					return fname + ": " + msg
				}
			} else {
				if fl.GetType() != descriptorpb.FieldDescriptorProto_TYPE_MESSAGE {
					return fmt.Sprintf("%s is no message", fname)
				}
				if strings.TrimSpace(comment) != fmt.Sprintf("Cardinalities in parent: %v.", c.cards) {
					return fmt.Sprintf("%s: comment %q, want cardinalities %v", fname, comment, c.cards)
				}
				if msg := f.match(protocx.TypeName(fl), c.shape); msg != "" {
					return msg
				}
			}
		}
		if want := plain(local); want != "" && clash[alnum(local)] == 1 && fl.GetName() != want {
			return fmt.Sprintf("%s for %q", fname, local)
		}
	}
	if len(tags) != len(m.Field) {
		return name + ": tags are not distinct"
	}
	return ""
}

// check compares a compiled file with the shapes of a document.
func check(fd *descriptorpb.FileDescriptorProto, roots []*shape, examples bool) string {
	f := &file{fd: fd, pkg: fd.GetPackage(), comments: map[string]string{}, used: map[string]int{}, examples: examples}
	if fd.GetSyntax() != "proto3" {
		return "not proto3"
	}
	for _, l := range fd.GetSourceCodeInfo().GetLocation() {
		f.comments[pathKey(l.GetPath())] = l.GetLeadingComments()
	}
	referred := map[string]bool{}
	for _, m := range fd.MessageType {
		for _, fl := range m.Field {
			referred[protocx.TypeName(fl)] = true
		}
	}
	// Root messages are the ones nothing refers to; each must be a root
	// element's, whatever their order.
	var free []string
	for _, m := range fd.MessageType {
		if n := f.pkg + "." + m.GetName(); !referred[n] {
			free = append(free, n)
		}
	}
	for _, s := range roots {
		if s.leaf() {
			continue
		}
		var first string
		found := false
		for i, n := range free {
			before := f.used
			f.used = map[string]int{}
			msg := f.match(n, s)
			for k, v := range before {
				f.used[k] += v
			}
			if msg == "" {
				free = append(append([]string{}, free[:i]...), free[i+1:]...)
				found = true
				break
			}
			f.used = before
			if first == "" || strings.EqualFold(n, f.pkg+"."+alnum(s.name.Local)) {
				first = msg
			}
		}
		if !found {
			return fmt.Sprintf("no message for root element %v: %s", s.name, first)
		}
	}
	if len(free) != 0 {
		return fmt.Sprintf("messages for no element: %q", free)
	}
	for _, m := range fd.MessageType {
		if n := f.pkg + "." + m.GetName(); f.used[n] != 1 {
			return fmt.Sprintf("message %s describes %d elements", n, f.used[n])
		}
	}
	return ""
}

var names = []string{"a", "b", "c", "item", "item", "id", "ID", "Id", "foo-bar", "foo_bar", "fooBar", "foobar", "FooBar", "_x", "_X", "x", "x1", "x-1", "x2", "_1", "a.b", "ab", "é", "naïve", "中", "message", "string", "repeated", "map",
	"group", "oneof", "a2", "A", "item2", "_", "__", "option", "package", "R", "_Item", "_foo", "Message_", "field_", "message_", "int64", "xmlns", "a-b-c", "URL", "aURL", "Field_"}

func elemName(t *pbt.T, ns bool) string {
	n := gen.Pick(t.T, "name", names...)
	if n == "xmlns" {
		n = "x"
	}
	if ns && gen.OneIn(t.T, 4, "prefixed") {
		n = gen.Pick(t.T, "prefix", "p", "q") + ":" + n
	}
	return n
}

func value(t *pbt.T, kind int) string {
	if gen.OneIn(t.T, 10, "otherkind") {
		kind = gen.Int(t.T, 0, 4, "kind")
	}
	switch kind {
	case 0:
		return tab.IntCell(t.T)
	case 1:
		return gen.FloatText(t.T, "float")
	case 2:
		return gen.Pick(t.T, "few", "x", "y", "1", "2", "", "true")
	case 3:
		return gen.Pick(t.T, "odd", "9223372036854775808", "-9223372036854775808", "+5", "0x10", "0x1p4", "1_000", "inf", "NaN", "1e999", " 1", "1 ", "٣", "*/", "//", "\n", "a\nb", "\"", "\\", "%d", "''", "]]>", "<&>", "1.", ".5", "\t7", strings.Repeat("w", 300))
	}
	return xmlText(gen.Text(t.T, 12, "text"))
}

// xmlText drops what XML cannot hold.
func xmlText(s string) string {
	return strings.Map(func(r rune) rune {
		if r == 0x9 || r == 0xa || r == 0xd || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000 && r <= 0x10ffff {
			return r
		}
		return -1
	}, s)
}

var esc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&#34;", "\n", "&#10;", "\t", "&#x9;", "\r", "&#13;")

type drawer struct {
	t     *pbt.T
	kinds map[string]int // what a name's values mostly are
	ns    bool
	left  int
}

func (d *drawer) kind(n string) int {
	k, ok := d.kinds[n]
	if !ok {
		k = gen.Int(d.t.T, 0, 4, "kindof")
		d.kinds[n] = k
	}
	return k
}

func (d *drawer) junk(b *strings.Builder) {
	if gen.OneIn(d.t.T, 8, "junk") {
		b.WriteString(gen.Pick(d.t.T, "what", "<!-- c -->", "<?pi x?>", "\n ", "<!---->"))
	}
}

func (d *drawer) element(b *strings.Builder, name string, depth int) {
	t := d.t
	d.left--
	b.WriteString("<" + name)
	if depth == 0 && d.ns {
		b.WriteString(` xmlns:p="urn:p" xmlns:q="urn:` + gen.Pick(t.T, "qns", "q", "p") + `"`)
		if gen.OneIn(t.T, 3, "defns") {
			b.WriteString(` xmlns="urn:d"`)
		}
	}
	for i, n := 0, gen.Int(t.T, 0, 3, "attrs"); i < n; i++ {
		a := elemName(t, d.ns)
		b.WriteString(" " + a + `="` + esc.Replace(value(t, d.kind(a))) + `"`)
	}
	b.WriteString(">")
	kids := 0
	if depth < 4 && d.left > 0 && !gen.OneIn(t.T, 2+depth, "leaf") {
		kids = gen.Int(t.T, 1, 4, "kids")
	}
	last := ""
	for i := 0; i < kids && d.left > 0; i++ {
		d.junk(b)
		k := last
		if k == "" || gen.OneIn(t.T, 2, "newname") {
			k = elemName(t, d.ns)
		}
		last = k
		d.element(b, k, depth+1)
		if gen.OneIn(t.T, 5, "mixed") {
			b.WriteString(esc.Replace(value(t, 4)))
		}
	}
	if kids == 0 && !gen.OneIn(t.T, 5, "notext") {
		v := value(t, d.kind("<"+name))
		if gen.OneIn(t.T, 5, "cdata") && !strings.Contains(v, "]]>") && !strings.Contains(v, "\r") {
			b.WriteString("<![CDATA[" + v + "]]>")
		} else {
			b.WriteString(esc.Replace(v))
		}
		d.junk(b)
	}
	b.WriteString("</" + name + ">")
}

// wide returns a document with one element in which some values recur and
// others do not.
func wide(t *pbt.T) string {
	var b strings.Builder
	vals := gen.Int(t.T, 1, 9, "vals")
	kind := gen.Int(t.T, 0, 2, "widekind")
	val := func() string {
		v := gen.Int(t.T, 0, vals, "v")
		if gen.Bool(t.T, "low") {
			v = gen.Int(t.T, 0, v, "lowv")
		}
		return esc.Replace(fmt.Sprintf([]string{"%d", "%d.5", "v%d \"x\""}[kind], v))
	}
	switch gen.Int(t.T, 0, 12, "wideshape") {
	case 3:
		// Many values, none of them like another, and one that may be of another type.
		n := gen.Pick(t.T, "values", 40, 130, 300, 600, 1100)
		at := gen.Pick(t.T, "at", -1, n-1, n/2)
		where := gen.Pick(t.T, "where", "<i>%s</i>", "<i a=\"%s\"/>")
		b.WriteString("<r>")
		for i := 0; i < n; i++ {
			v := fmt.Sprint(i * 7)
			if i == at {
				v = gen.Pick(t.T, "otherval", "x", "0.5", "99999999999999999999", "1e40", "")
			}
			fmt.Fprintf(&b, where, v)
		}
		b.WriteString("</r>")
		return b.String()
	case 4:
		// A long way down.
		n := gen.Pick(t.T, "depth", 12, 30, 70, 140)
		name := gen.Pick(t.T, "down", "n%d", "n", "N-%d")
		nth := func(i int) string {
			if strings.Contains(name, "%") {
				return fmt.Sprintf(name, i)
			}
			return name
		}
		for i := 0; i < n; i++ {
			b.WriteString("<" + nth(i) + ">")
		}
		b.WriteString("<k a=\"" + val() + "\">" + val() + "</k>")
		for i := n - 1; i >= 0; i-- {
			b.WriteString("</" + nth(i) + ">")
		}
		return b.String()
	case 5:
		// Many attributes and children, in elements that do not all have them.
		n := gen.Pick(t.T, "fields", 12, 20, 40, 70, 130)
		b.WriteString("<r>")
		for i := gen.Int(t.T, 1, 3, "elems"); i > 0; i-- {
			b.WriteString("<i")
			kids := ""
			some := gen.Bool(t.T, "some")
			for j := 0; j < n; j++ {
				if some && gen.OneIn(t.T, 3, "without") {
					continue
				}
				fmt.Fprintf(&b, " a%d=\"%s\"", j, val())
				kids += fmt.Sprintf("<k%d>%s</k%d>", j, val(), j)
			}
			b.WriteString(">" + kids + "</i>")
		}
		b.WriteString("</r>")
		return b.String()
	case 0:
		// Many parents with a child of one name, each a message of its own.
		b.WriteString("<r>")
		for i, n := 0, gen.Int(t.T, 2, 25, "parents"); i < n; i++ {
			fmt.Fprintf(&b, "<p%d><k a=\"%s\"/></p%d>", i, val(), i)
		}
		b.WriteString("</r>")
		return b.String()
	case 1:
		// Many elements that are all alike.
		b.WriteString("<r>" + strings.Repeat(gen.Pick(t.T, "like", `<i a="1">x</i>`, `<i a="1"/>`, "<i>1</i>", "<i></i>", "<i><k/></i>"), gen.Pick(t.T, "alike", 20, 60, 101, 300, 1001)))
		if gen.Bool(t.T, "butone") {
			b.WriteString("<i>" + val() + "</i>")
		}
		b.WriteString("</r>")
		return b.String()
	case 2:
		// Long values, in pieces.
		b.WriteString("<r><i>")
		for i, n := 0, gen.Int(t.T, 1, 3, "pieces"); i < n; i++ {
			b.WriteString(strings.Repeat(gen.Pick(t.T, "long", "0", "1", "x", " "), gen.Pick(t.T, "length", 1, 17, 300, 4096, 5000, 70000)))
			b.WriteString(gen.Pick(t.T, "between", "<!-- -->", "<?x?>", "<![CDATA[0]]>"))
		}
		b.WriteString(gen.Pick(t.T, "rest", "", "0", "x") + "</i></r>")
		return b.String()
	}
	b.WriteString("<r>")
	if gen.OneIn(t.T, 6, "many") {
		// Many alike, so that what the others show is rare.
		b.WriteString(strings.Repeat("<i a=\"1\"><k>1</k></i>", gen.Pick(t.T, "alike", 60, 101, 250, 1001)))
	}
	for i, n := 0, gen.Int(t.T, 3, 16, "items"); i < n; i++ {
		b.WriteString("<i")
		if !gen.OneIn(t.T, 5, "noattr") {
			b.WriteString(` a="` + val() + `"`)
		}
		b.WriteString(">")
		for k, n := 0, gen.Pick(t.T, "ks", 1, 1, 1, 1, 0, 2, 3); k < n; k++ {
			b.WriteString("<k>" + val() + "</k>")
		}
		b.WriteString("</i>")
	}
	b.WriteString("</r>")
	return b.String()
}

func document(t *pbt.T) string {
	if gen.OneIn(t.T, 5, "wide") {
		return wide(t)
	}
	var b strings.Builder
	if gen.OneIn(t.T, 4, "decl") {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE r>\n")
	}
	d := &drawer{t: t, kinds: map[string]int{}, ns: gen.OneIn(t.T, 3, "ns"), left: 40}
	same := elemName(t, false)
	for i, n := 0, gen.Int(t.T, 0, 3, "roots"); i < n; i++ {
		if gen.OneIn(t.T, 3, "otherroot") {
			same = elemName(t, false)
		}
		d.element(&b, same, 0)
		d.junk(&b)
	}
	return b.String()
}

// A reader hands out a decoder's tokens in every way a TokenReader may.
type reader struct {
	d      *xml.Decoder
	next   xml.Token
	err    error
	eof    bool
	nils   func() bool
	reused []byte
}

func newReader(doc string, eof bool, nils func() bool) *reader {
	r := &reader{d: xml.NewDecoder(strings.NewReader(doc)), eof: eof, nils: nils}
	r.pull()
	return r
}

func (r *reader) pull() {
	r.next, r.err = r.d.Token()
	if r.next != nil {
		r.next = xml.CopyToken(r.next)
	}
}

func (r *reader) Token() (xml.Token, error) {
	// What an earlier call returned is only valid until the next one.
	for i := range r.reused {
		r.reused[i] = '#'
	}
	if r.nils() {
		return nil, nil
	}
	if r.err != nil {
		return nil, r.err
	}
	tok := r.next
	if c, ok := tok.(xml.CharData); ok {
		r.reused = c
	}
	r.pull()
	if r.err != nil && r.eof {
		return tok, r.err
	}
	return tok, nil
}

func infer(tr xml.TokenReader, opts ...xmlinfer.Option) (string, error) {
	res, err := xmlinfer.Infer(tr, opts...)
	if err != nil {
		return "", err
	}
	return res.ProtoFile()
}

func TestInfer(t *testing.T) {
	pbt.Check(t, 250, func(t *pbt.T) {
		n := gen.Int(t.T, 1, 30, "docs")
		t.Case(true, "")
		files := map[string]string{}
		type job struct {
			doc      string
			roots    []*shape
			examples bool
		}
		var jobs []job
		for i := 0; i < n; i++ {
			doc := document(t)
			nodes, err := parse(doc)
			if err != nil {
				t.Fatalf("HARNESS: %v in %q", err, doc)
			}
			var opts []xmlinfer.Option
			examples := true
			if gen.OneIn(t.T, 3, "option") {
				examples = gen.Bool(t.T, "examples")
				opts = append(opts, xmlinfer.IncludeExamplesOption(examples))
			}
			roots := shapes(nodes)
			some := false
			for _, r := range roots {
				some = some || !r.leaf()
			}
			t.Sub(some, doc)
			text, err := infer(xml.NewDecoder(strings.NewReader(doc)), opts...)
			if err != nil {
				t.Fatalf("inference from %q failed: %v", doc, err)
			}
			custom := newReader(doc, gen.Bool(t.T, "eof"), func() bool { return gen.OneIn(t.T, 6, "nil") })
			if again, err := infer(custom, opts...); err != nil || again != text {
				t.Fatalf("inference from %q with another TokenReader: %v\n%s\nwas\n%s", doc, err, again, text)
			}
			name := fmt.Sprintf("d%d.proto", i)
			const head = "syntax = \"proto3\";"
			if !strings.HasPrefix(text, head) {
				t.Fatalf("%q gives %q", doc, text)
			}
			files[name] = head + fmt.Sprintf("\npackage pk%d;\n", i) + text[len(head):]
			jobs = append(jobs, job{doc, roots, examples})
		}
		set, complaint := protocx.Compile(pbt.Scratch("c27"), files)
		if complaint != "" {
			if strings.HasPrefix(complaint, "HARNESS") {
				pbt.Infra("%s", complaint)
			}
			var bad string
			for i := range jobs {
				if strings.Contains(complaint, fmt.Sprintf("d%d.proto", i)) {
					bad = fmt.Sprintf("%q\n%s", jobs[i].doc, files[fmt.Sprintf("d%d.proto", i)])
					break
				}
			}
			t.Fatalf("protoc rejects it: %s\n%s", complaint, bad)
		}
		for i, j := range jobs {
			if msg := check(protocx.File(set, fmt.Sprintf("d%d.proto", i)), j.roots, j.examples); msg != "" {
				t.Fatalf("from %q: %s\n%s", j.doc, msg, files[fmt.Sprintf("d%d.proto", i)])
			}
		}
	})
}

// TestFaults checks that unusable input is an error and never a panic.
func TestFaults(t *testing.T) {
	pbt.Check(t, 3000, func(t *pbt.T) {
		doc := document(t)
		switch gen.Int(t.T, 0, 3, "fault") {
		case 0:
			if len(doc) > 0 {
				doc = doc[:gen.Int(t.T, 0, len(doc)-1, "cut")]
			}
		case 1:
			i := gen.Int(t.T, 0, len(doc), "at")
			doc = doc[:i] + gen.Pick(t.T, "ins", "<", ">", "&", "</x>", "<x>", "\"", "\x00", "\xff", "<a b>", "]]>", "&nope;", "<1/>") + doc[i:]
		case 2:
			i := gen.Int(t.T, 0, len(doc), "from")
			doc = doc[i:]
		default:
			doc = gen.Text(t.T, 30, "bytes")
		}
		_, perr := parse(doc)
		t.Case(true, doc)
		text, err := infer(xml.NewDecoder(strings.NewReader(doc)))
		if (perr != nil) != (err != nil) {
			t.Fatalf("inference from %q: error %v; reading its tokens: error %v", doc, err, perr)
		}
		if err != nil && text != "" {
			t.Fatalf("an error and %q", text)
		}
		t.Class(fmt.Sprintf("error %v", err != nil))
	}, pbt.MustTerminate())
}

type tokens struct {
	toks []xml.Token
	err  error
	with bool // the last token comes with the error, which is not repeated
}

func (r *tokens) Token() (xml.Token, error) {
	if len(r.toks) == 0 {
		return nil, r.err
	}
	t := r.toks[0]
	r.toks = r.toks[1:]
	if len(r.toks) == 0 && r.with {
		err := r.err
		r.err = io.EOF
		return t, err
	}
	return t, nil
}

// TestTokens feeds token sequences that no decoder returns.
func TestTokens(t *testing.T) {
	boom := errors.New("boom")
	pbt.Check(t, 3000, func(t *pbt.T) {
		var toks []xml.Token
		var stack []xml.Name
		ok := true
		desc := ""
		for i, n := 0, gen.Int(t.T, 0, 12, "n"); i < n; i++ {
			name := xml.Name{Space: gen.Pick(t.T, "space", "", "", "s"), Local: gen.Pick(t.T, "local", "a", "b", "c", "", "1", "a b", "é\n", "-")}
			switch gen.Int(t.T, 0, 5, "tok") {
			case 0, 1:
				toks = append(toks, xml.StartElement{Name: name, Attr: []xml.Attr{{Name: xml.Name{Local: gen.Pick(t.T, "attr", "a", "", "x\n", "*/")}, Value: gen.Text(t.T, 5, "v")}}[:gen.Int(t.T, 0, 1, "nattr")]})
				stack = append(stack, name)
			case 2, 3:
				if len(stack) > 0 && !gen.OneIn(t.T, 12, "wrongend") {
					name = stack[len(stack)-1]
				}
				if len(stack) == 0 || stack[len(stack)-1] != name {
					ok = false
				} else {
					stack = stack[:len(stack)-1]
				}
				toks = append(toks, xml.EndElement{Name: name})
			case 4:
				toks = append(toks, xml.CharData(gen.Text(t.T, 5, "chars")))
			default:
				toks = append(toks, gen.Pick(t.T, "other", xml.Token(xml.Comment("c")), xml.Token(xml.ProcInst{Target: "x"}), xml.Token(xml.Directive("d"))))
			}
			if !ok {
				break
			}
		}
		for ok && len(stack) > 0 && !gen.OneIn(t.T, 6, "open") {
			toks = append(toks, xml.EndElement{Name: stack[len(stack)-1]})
			stack = stack[:len(stack)-1]
		}
		mismatch := !ok
		r := &tokens{toks: toks, err: io.EOF}
		if gen.OneIn(t.T, 6, "fails") {
			r.err = boom
		}
		r.with = gen.Bool(t.T, "together")
		ends := r.err
		if len(stack) > 0 || r.err != io.EOF {
			ok = false
		}
		desc = fmt.Sprintf("%#v then %v (at once: %v)", toks, r.err, r.with)
		t.Case(len(toks) > 1, desc)
		_, err := infer(r)
		if ok != (err == nil) {
			t.Fatalf("%s: error %v", desc, err)
		}
		if err != nil && ends == boom && !mismatch && !errors.Is(err, boom) {
			t.Fatalf("%s: error %v does not wrap the reader's", desc, err)
		}
	}, pbt.MustTerminate())
}

func TestRegressions(t *testing.T) {
	reg := func(name, doc string, f func(text string, err error) string) {
		pbt.Regression(t, name, func() (msg string) {
			defer func() {
				if r := recover(); r != nil {
					msg = fmt.Sprintf("panic: %v", r)
				}
			}()
			text, err := infer(xml.NewDecoder(strings.NewReader(doc)))
			return f(text, err)
		})
	}
	compiles := func(text string, err error) string {
		if err != nil {
			return err.Error()
		}
		_, complaint := protocx.Compile(pbt.Scratch("c27"), map[string]string{"x.proto": text})
		return complaint
	}
	reg("same-name", `<r a="1"><a>2</a></r>`, compiles)
	reg("json-name", `<r foo-bar="1" foobar="2"/>`, compiles)
	reg("dot-name", `<r a.b="1"/>`, compiles)
	reg("digit-name", `<_1 _2="1"/>`, compiles)
	reg("upper-field", `<r><_Item a="1"/></r>`, compiles)
	pbt.Regression(t, "ties", func() string {
		doc := `<r><i a="1"/><i a="2"/><i a="3"/><i a="4"/><i a="5"/><i a="6"/><i a="7"/></r>`
		first, _ := infer(xml.NewDecoder(strings.NewReader(doc)))
		for i := 0; i < 20; i++ {
			if again, _ := infer(xml.NewDecoder(strings.NewReader(doc))); again != first {
				return "two runs differ"
			}
		}
		return ""
	})
	pbt.Regression(t, "no-examples", func() string {
		text, err := infer(xml.NewDecoder(strings.NewReader(`<r a="secret"/>`)), xmlinfer.IncludeExamplesOption(false))
		if err != nil || strings.Contains(text, "secret") {
			return fmt.Sprintf("%v\n%s", err, text)
		}
		return ""
	})
	pbt.Regression(t, "token-with-eof", func() string {
		if _, err := infer(newReader(`<r a="1"></r>`, true, func() bool { return false })); err != nil {
			return err.Error()
		}
		return ""
	})
}
