// Package sx generates s-expression texts together with the forms they denote,
// and holds a reference reader written from the syntax alone.
package sx

import (
	"errors"
	"fmt"
	"go/constant"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/google/xtoproto/sexpr"
	"github.com/google/xtoproto/sexpr/form"
	"github.com/google/xtoproto/verifharness/gen"
	"pgregory.net/rapid"
)

// Kind of a form.
type Kind int

// The kinds.
const (
	List Kind = iota
	Symbol
	String
	Number
)

// Node is a form and where it is in the text (rune offsets).
type Node struct {
	Kind       Kind
	Kids       []*Node
	Text       string // symbol name or string value
	Int        *big.Int
	Float      float64
	Quoted     bool // a list written with a quote mark
	Start, End int
}

func (n *Node) String() string {
	switch n.Kind {
	case List:
		var p []string
		for _, k := range n.Kids {
			p = append(p, k.String())
		}
		return "(" + strings.Join(p, " ") + ")"
	case Symbol:
		return "sym:" + strconv.Quote(n.Text)
	case String:
		return strconv.Quote(n.Text)
	}
	if n.Int != nil {
		return "num:" + n.Int.String()
	}
	return "num:" + strconv.FormatFloat(n.Float, 'g', -1, 64)
}

// The text Span last saw, and where its lines start.
var (
	lastText   []rune
	lastStarts = []int{0}
)

// Span is the documented form of a source position: file:line:column-column or
// file:line:column-line:column, in runes, from one, the end exclusive.
func Span(file string, text []rune, start, end int) string {
	if len(text) != len(lastText) || len(text) > 0 && &text[0] != &lastText[0] {
		lastText, lastStarts = text, []int{0}
		for i, r := range text {
			if r == '\n' {
				lastStarts = append(lastStarts, i+1)
			}
		}
	}
	lc := func(o int) (int, int) {
		l := sort.SearchInts(lastStarts, o+1)
		return l, o - lastStarts[l-1] + 1
	}
	l1, c1 := lc(start)
	l2, c2 := lc(end)
	if l1 == l2 {
		return fmt.Sprintf("%s:%d:%d-%d", file, l1, c1, c2)
	}
	return fmt.Sprintf("%s:%d:%d-%d:%d", file, l1, c1, l2, c2)
}

// Differs compares a form that was read with a node; "" if equal.
func Differs(f form.Form, n *Node) string {
	if f == nil {
		return "form is nil, want " + n.String()
	}
	switch n.Kind {
	case List:
		l, ok := f.(form.List)
		if !ok {
			return fmt.Sprintf("form is a %T, want a list %s", f, n)
		}
		if l.Len() != len(n.Kids) || len(form.Subforms(l)) != len(n.Kids) {
			return fmt.Sprintf("list has %d forms (%d subforms), want %s", l.Len(), len(form.Subforms(l)), n)
		}
		for i, k := range n.Kids {
			if m := Differs(l.Nth(i), k); m != "" {
				return fmt.Sprintf("[%d] %s", i, m)
			}
		}
	case Symbol:
		s, ok := f.(form.Symbol)
		if !ok {
			return fmt.Sprintf("form is a %T, want the symbol %q", f, n.Text)
		}
		if s.SymbolLiteral() != n.Text {
			return fmt.Sprintf("symbol is %q, want %q", s.SymbolLiteral(), n.Text)
		}
	case String:
		s, ok := f.(form.String)
		if !ok {
			return fmt.Sprintf("form is a %T, want the string %q", f, n.Text)
		}
		if s.StringValue() != n.Text || s.Value() != interface{}(n.Text) {
			return fmt.Sprintf("string is %q (value %q), want %q", s.StringValue(), s.Value(), n.Text)
		}
	default:
		x, ok := f.(form.Number)
		if !ok {
			return fmt.Sprintf("form is a %T, want the number %s", f, n)
		}
		want := constant.MakeFloat64(n.Float)
		if n.Int != nil {
			want = constant.Make(n.Int)
		}
		got := x.Number()
		if got == nil || got.Kind() != constant.Int && got.Kind() != constant.Float || !constant.Compare(got, 39 /* token.EQL */, want) {
			return fmt.Sprintf("number is %v, want %s", got, n)
		}
		if n.Int != nil && got.Kind() != constant.Int {
			return fmt.Sprintf("number %s was read as a %v", n, got.Kind())
		}
	}
	return ""
}

// Writer lays out forms as text.
type Writer struct {
	t     gen.D
	runes []rune
	long  bool // there is a long stretch of white space or comment already
}

// last is the last rune written.
func (w *Writer) last() rune {
	if len(w.runes) == 0 {
		return ' '
	}
	return w.runes[len(w.runes)-1]
}

func (w *Writer) put(s string) { w.runes = append(w.runes, []rune(s)...) }

// trivia writes whitespace and comments, at least some if need is set.
func (w *Writer) trivia(need bool) {
	n := gen.Int(w.t, 0, 3, "trivia")
	if n == 0 && need {
		n = 1
	}
	if w.long {
		n = min(n, 1) // reading is quadratic in the lines and forms
	} else if gen.OneIn(w.t, 4000, "longtrivia") && w.last() != '/' {
		w.long = true
		size := gen.Pick(w.t, "longsize", 33, 255, 300, 1030, 4100, 5000)
		switch gen.Int(w.t, 0, 3, "longkind") {
		case 0:
			ws := gen.Pick(w.t, "longws", "\n", " \n", " ", "\t", "\r\n")
			if strings.Contains(ws, "\n") {
				size = min(size, 300)
			}
			w.put(strings.Repeat(ws, size) + " ")
		case 1:
			w.put(strings.Repeat("// c\n", min(size, 300)))
		case 2:
			w.put("//" + strings.Repeat(gen.Pick(w.t, "longline", "c", "é ", "/", "\""), size) + "\n")
		default:
			w.put("/*" + strings.Repeat(gen.Pick(w.t, "longblock", "c", "é ", "*", "/ "), size) + "\n*/")
		}
	}
	for i := 0; i < n; i++ {
		k := gen.Int(w.t, 0, 7, "triviakind")
		if k >= 5 && w.last() == '/' {
			k = 0 // a slash and the start of a comment would run together
		}
		switch k {
		case 0, 1, 2:
			w.put(gen.Pick(w.t, "ws", " ", "\n", "\t", "  ", " \n ", "\n\n", "\r\n", "\r\n\t"))
		case 3, 4:
			w.put(" ")
		case 5:
			w.put("//" + strings.ReplaceAll(commentText(w.t), "\n", " ") + "\n")
		default:
			c := commentText(w.t)
			for strings.Contains(c, "*/") {
				c = strings.ReplaceAll(c, "*/", "*")
			}
			w.put("/*" + c + "*/")
		}
	}
}

func commentText(t gen.D) string {
	var b strings.Builder
	for i, n := 0, gen.Int(t, 0, 5, "commentlen"); i < n; i++ {
		b.WriteString(gen.Pick(t, "comment", "a", " ", "*", "**", "/", "//", "/*", "\"", "(", ")", "'", "\n", "\\", "é", "1", "😀"))
	}
	return b.String()
}

// closed reports whether a token that was just written ends here whatever follows.
func (w *Writer) closed() bool {
	switch w.last() {
	case ' ', '\t', '\n', '\r', '(', ')':
		return true
	}
	return false
}

func (w *Writer) node(n *Node) {
	n.Start = len(w.runes)
	switch n.Kind {
	case List:
		if n.Quoted {
			w.put("'")
			n.Kids[0].Start, n.Kids[0].End = n.Start, len(w.runes)
			w.trivia(false)
			w.node(n.Kids[1])
			break
		}
		w.put("(")
		if len(n.Kids) > 16 {
			w.long = true
		}
		w.nodes(n.Kids)
		w.put(")")
	case Symbol:
		w.put(n.Text)
	case String:
		w.put(quote(w.t, n.Text))
	default:
		w.put(number(w.t, n))
	}
	n.End = len(w.runes)
}

func (w *Writer) nodes(ns []*Node) {
	var prev *Node
	for _, n := range ns {
		// A symbol or number runs on into another, and into a quote mark.
		tail := prev
		for tail != nil && tail.Kind == List && tail.Quoted {
			tail = tail.Kids[1]
		}
		need := tail != nil && (tail.Kind == Symbol || tail.Kind == Number) && (n.Kind == Symbol || n.Kind == Number || n.Kind == List && n.Quoted)
		w.trivia(need)
		w.node(n)
		prev = n
	}
	w.trivia(false)
}

// Layout writes the forms and records where they are.
func Layout(t gen.D, ns []*Node) string {
	w := &Writer{t: t}
	w.nodes(ns)
	if gen.OneIn(t, 6, "endcomment") && w.last() != '/' {
		w.put("// to the end")
	}
	return string(w.runes)
}

func quote(t gen.D, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && n == 1 {
			fmt.Fprintf(&b, `\x%02x`, s[0])
			s = s[1:]
			continue
		}
		k := gen.Int(t, 0, 3, "esc")
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case k != 0:
			b.WriteRune(r)
		case r < 0x80 && gen.Bool(t, "hex"):
			if gen.Bool(t, "oct") {
				fmt.Fprintf(&b, `\%03o`, r)
			} else {
				fmt.Fprintf(&b, `\x%02X`, r)
			}
		case r > 0xffff:
			fmt.Fprintf(&b, `\U%08x`, r)
		default:
			if i := strings.IndexRune("\a\b\f\n\r\t\v", r); i >= 0 {
				b.WriteByte('\\')
				b.WriteByte("abfnrtv"[i])
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		}
		s = s[n:]
	}
	b.WriteByte('"')
	return b.String()
}

func number(t gen.D, n *Node) string {
	if n.Int == nil {
		f := n.Float
		if f == 0 {
			return gen.Pick(t, "zero", "0.0", "-0.0", "+0.0", "0e5", "-0e5", "-0.", "0x0p0", "-0x0p1", "0.000")
		}
		if f == math.Trunc(f) && math.Abs(f) < 1e15 {
			// Keep it from looking like an integer.
			return strconv.FormatFloat(f, 'f', gen.Int(t, 1, 4, "prec"), 64)
		}
		switch gen.Int(t, 0, 3, "ffmt") {
		case 0:
			s := strconv.FormatFloat(f, 'e', -1, 64)
			if gen.Bool(t, "E") {
				s = strings.ToUpper(s)
			}
			return s
		case 1:
			return strconv.FormatFloat(f, 'x', -1, 64)
		case 2:
			if math.Abs(f) < 1e15 && math.Abs(f) > 1e-15 {
				return strconv.FormatFloat(f, 'f', -1, 64)
			}
		}
		s := strconv.FormatFloat(f, 'g', -1, 64)
		if gen.OneIn(t, 4, "plus") && f > 0 {
			s = "+" + s
		}
		return s
	}
	neg := n.Int.Sign() < 0
	abs := new(big.Int).Abs(n.Int)
	s := ""
	switch gen.Int(t, 0, 5, "ifmt") {
	case 0:
		s = "0x" + abs.Text(16)
	case 1:
		s = "0b" + abs.Text(2)
	case 2:
		s = gen.Pick(t, "oct", "0o", "0") + abs.Text(8)
	default:
		s = abs.String()
		if gen.OneIn(t, 4, "under") && len(s) > 1 {
			i := gen.Int(t, 1, len(s)-1, "at")
			s = s[:i] + "_" + s[i:]
		}
	}
	if neg {
		return "-" + s
	}
	if gen.OneIn(t, 6, "plus") {
		return "+" + s
	}
	return s
}

// IsSymbol reports whether a token reads as a symbol: it is not a number, and does
// not look like one.
func IsSymbol(s string) bool {
	if s == "" || s[0] >= '0' && s[0] <= '9' || s[0] == '\'' || strings.Contains(s, "//") || strings.Contains(s, "/*") {
		return false
	}
	return !numeric(s)
}

func numeric(s string) bool {
	if _, ok := new(big.Int).SetString(s, 0); ok {
		return true
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return errors.Is(err, strconv.ErrRange)
	}
	return !math.IsInf(f, 0) && !math.IsNaN(f)
}

// Draw makes a form of limited depth.
func Draw(t gen.D, depth int) *Node {
	k := gen.Int(t, 0, 9, "kind")
	if depth > 0 && gen.OneIn(t, 1500, "chain") {
		// One form inside many lists or quote marks.
		n := Draw(t, 0)
		for i, levels := 0, gen.Pick(t, "levels", 20, 33, 65, 70, 130, 300); i < levels; i++ {
			if k%2 == 0 {
				n = &Node{Kind: List, Quoted: true, Kids: []*Node{{Kind: Symbol, Text: "QUOTE"}, n}}
			} else {
				n = &Node{Kind: List, Kids: []*Node{n}}
			}
			if k > 7 {
				k ^= 1
			}
		}
		return n
	}
	if depth > 0 && gen.OneIn(t, 3000, "longlist") {
		n := &Node{Kind: List}
		for i, c := 0, gen.Pick(t, "listlen", 17, 65, 257, 1030); i < c; i++ {
			n.Kids = append(n.Kids, &Node{Kind: Number, Int: big.NewInt(int64(i))})
		}
		return n
	}
	if depth <= 0 && k < 4 {
		k += 4
	}
	switch {
	case k < 3:
		n := &Node{Kind: List}
		for i, c := 0, gen.Int(t, 0, 4, "kids"); i < c; i++ {
			n.Kids = append(n.Kids, Draw(t, depth-1))
		}
		return n
	case k == 3:
		return &Node{Kind: List, Quoted: true, Kids: []*Node{{Kind: Symbol, Text: "QUOTE"}, Draw(t, depth-1)}}
	case k < 6:
		return &Node{Kind: String, Text: stringValue(t)}
	case k < 8:
		return &Node{Kind: Symbol, Text: symbolName(t)}
	}
	n := &Node{Kind: Number}
	switch gen.Int(t, 0, 2, "num") {
	case 0:
		n.Int = big.NewInt(gen.Int64(t, "int"))
	case 1:
		n.Int = new(big.Int).SetUint64(rapid.Uint64().Draw(t, "uint"))
	default:
		n.Float = gen.Float64(t, "float", false)
		if math.IsInf(n.Float, 0) {
			n.Float = 0.5
		}
	}
	return n
}

func stringValue(t gen.D) string {
	if gen.OneIn(t, 3, "piecewise") {
		var b strings.Builder
		for i, n := 0, gen.Int(t, 0, 6, "pieces"); i < n; i++ {
			b.WriteString(gen.Pick(t, "piece", "\\", "\"", "\\\\", "\n", "n", "(", ")", "//", "/*", "*/", "'", " ", "a", "\xff", "\x00", "�", "😀"))
		}
		return b.String()
	}
	if gen.OneIn(t, 4000, "longstr") {
		return strings.Repeat(gen.Pick(t, "longpiece", "a", "é\n", "\\", "\"", "😀 ", "\xff"), gen.Pick(t, "longlen", 33, 257, 1025, 4100, 5000))
	}
	return gen.Text(t, 6, "str")
}

func symbolName(t gen.D) string {
	if gen.OneIn(t, 3, "knownsym") {
		return gen.Pick(t, "sym", "a", "x-y", "a/b", "/", "+", "-", "a/", "/a", "*", "inf", "-Inf", "nan", "infinity", "a'b", "a*/b", "..", "e1", "-x", "é", "😀", "QUOTE", "a`b", ",a", "#t", "a;b", "\\", "_1", "a1", "+a")
	}
	if gen.OneIn(t, 4000, "longsym") {
		return "s" + strings.Repeat(gen.Pick(t, "longsympiece", "a", "é", "-", "*", "😀"), gen.Pick(t, "longlen", 33, 257, 1025, 4100, 5000))
	}
	s := strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) || unicode.IsControl(r) || strings.ContainsRune("()\"", r) {
			return 'k'
		}
		return r
	}, gen.Text(t, 5, "symtext"))
	if !IsSymbol(s) {
		return "s" + strings.ReplaceAll(s, "/", "|")
	}
	return s
}

// Forms draws a document.
func Forms(t gen.D) []*Node {
	var ns []*Node
	for i, c := 0, gen.Int(t, 0, 4, "forms"); i < c; i++ {
		ns = append(ns, Draw(t, gen.Int(t, 0, 4, "depth")))
	}
	return ns
}

// Walk calls f for each node.
func Walk(ns []*Node, f func(*Node)) {
	for _, n := range ns {
		f(n)
		Walk(n.Kids, f)
	}
}

// ErrUnspecified marks texts whose meaning the syntax leaves open.
var ErrUnspecified = errors.New("unspecified")

// Read is the reference reader. It gives the forms of the text up to the first
// fault, and the fault.
func Read(text string) ([]*Node, error) {
	p := &parser{rs: []rune(text)}
	var ns []*Node
	for {
		if err := p.skip(); err != nil {
			return ns, err
		}
		if p.i == len(p.rs) {
			return ns, nil
		}
		n, err := p.form()
		if err != nil {
			return ns, err
		}
		ns = append(ns, n)
	}
}

type parser struct {
	rs []rune
	i  int
}

func (p *parser) at(i int) rune {
	if i < len(p.rs) {
		return p.rs[i]
	}
	return -1
}

func (p *parser) skip() error {
	for {
		switch c, d := p.at(p.i), p.at(p.i+1); {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			p.i++
		case c == '/' && d == '/':
			for p.i < len(p.rs) && p.rs[p.i] != '\n' {
				p.i++
			}
		case c == '/' && d == '*':
			end := -1
			for j := p.i + 2; j+1 < len(p.rs); j++ {
				if p.rs[j] == '*' && p.rs[j+1] == '/' {
					end = j + 2
					break
				}
			}
			if end < 0 {
				return ErrUnspecified
			}
			p.i = end
		default:
			return nil
		}
	}
}

func (p *parser) form() (*Node, error) {
	start := p.i
	switch c := p.at(p.i); c {
	case -1:
		return nil, errors.New("form expected")
	case ')':
		return nil, errors.New("unexpected )")
	case '(':
		p.i++
		n := &Node{Kind: List, Start: start}
		for {
			if err := p.skip(); err != nil {
				return nil, err
			}
			if p.at(p.i) == ')' {
				p.i++
				n.End = p.i
				return n, nil
			}
			if p.i == len(p.rs) {
				return nil, errors.New("unclosed list")
			}
			k, err := p.form()
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, k)
		}
	case '\'':
		p.i++
		n := &Node{Kind: List, Quoted: true, Start: start, Kids: []*Node{{Kind: Symbol, Text: "QUOTE", Start: start, End: p.i}}}
		if err := p.skip(); err != nil {
			return nil, err
		}
		k, err := p.form()
		if err != nil {
			return nil, err
		}
		n.Kids = append(n.Kids, k)
		n.End = p.i
		return n, nil
	case '"':
		return p.str()
	}
	for {
		c := p.at(p.i)
		if c == -1 || strings.ContainsRune(" \t\r\n()\"", c) || c == '/' && (p.at(p.i+1) == '/' || p.at(p.i+1) == '*') {
			break
		}
		p.i++
	}
	tok := string(p.rs[start:p.i])
	n := &Node{Start: start, End: p.i}
	if x, ok := new(big.Int).SetString(tok, 0); ok {
		n.Kind = Number
		if x.IsInt64() || x.IsUint64() {
			n.Int = x
			return n, nil
		}
		return nil, ErrUnspecified // integers of more than 64 bits
	}
	if f, err := strconv.ParseFloat(tok, 64); err == nil {
		if math.IsInf(f, 0) || math.IsNaN(f) {
			n.Kind, n.Text = Symbol, tok
			return n, nil
		}
		n.Kind, n.Float = Number, f
		return n, nil
	} else if errors.Is(err, strconv.ErrRange) {
		return nil, ErrUnspecified
	}
	if tok[0] >= '0' && tok[0] <= '9' {
		return nil, errors.New("bad number")
	}
	if strings.IndexFunc(tok, func(r rune) bool { return unicode.IsSpace(r) || unicode.IsControl(r) || r == utf8.RuneError }) >= 0 {
		return nil, ErrUnspecified // other white space, control characters and bytes that are not UTF-8
	}
	n.Kind, n.Text = Symbol, tok
	return n, nil
}

func (p *parser) str() (*Node, error) {
	start := p.i
	p.i++
	var b []byte
	for {
		c := p.at(p.i)
		p.i++
		switch c {
		case -1:
			return nil, errors.New("unterminated string")
		case '"':
			return &Node{Kind: String, Text: string(b), Start: start, End: p.i}, nil
		case '\\':
			e := p.at(p.i)
			p.i++
			digits := func(n, base int) (int64, error) {
				if p.i+n > len(p.rs) {
					return 0, errors.New("short escape")
				}
				d := string(p.rs[p.i : p.i+n])
				if strings.ContainsAny(d, "+-_") {
					return 0, errors.New("bad escape")
				}
				v, err := strconv.ParseUint(d, base, 32)
				p.i += n
				return int64(v), err
			}
			var v int64
			var err error
			switch e {
			case 'a', 'b', 'f', 'n', 'r', 't', 'v':
				b = append(b, "\a\b\f\n\r\t\v"[strings.IndexRune("abfnrtv", e)])
			case '\\', '"':
				b = append(b, byte(e))
			case 'x':
				v, err = digits(2, 16)
				b = append(b, byte(v))
			case 'u', 'U':
				v, err = digits(map[rune]int{'u': 4, 'U': 8}[e], 16)
				if err == nil && !utf8.ValidRune(rune(v)) {
					err = errors.New("bad rune")
				}
				b = utf8.AppendRune(b, rune(v))
			case '0', '1', '2', '3', '4', '5', '6', '7':
				p.i--
				v, err = digits(3, 8)
				if v > 255 {
					err = errors.New("bad octal")
				}
				b = append(b, byte(v))
			default:
				err = errors.New("bad escape")
			}
			if err != nil {
				return nil, err
			}
		default:
			b = utf8.AppendRune(b, c)
		}
	}
}

// The custom factory wraps forms in types of its own, and records trivia.

// Wrapped is embedded in every form of the custom factory.
type Wrapped struct{ pos sexpr.SourceSpan }

// SourcePosition implements form.Form.
func (w *Wrapped) SourcePosition() form.SourcePosition { return w.pos }

// CustomList keeps everything it was given.
type CustomList struct {
	Wrapped
	All, Vals []form.Form
}

func (l *CustomList) Value() interface{}  { return l.Vals }
func (l *CustomList) Len() int            { return len(l.Vals) }
func (l *CustomList) Nth(n int) form.Form { return l.Vals[n] }

type customNumber struct {
	Wrapped
	v constant.Value
}

func (n *customNumber) Value() interface{}     { return n.v }
func (n *customNumber) Number() constant.Value { return n.v }

type customSymbol struct {
	Wrapped
	s string
}

func (n *customSymbol) Value() interface{}    { return n.s }
func (n *customSymbol) SymbolLiteral() string { return n.s }

type customString struct {
	Wrapped
	s string
}

func (n *customString) Value() interface{}  { return n.s }
func (n *customString) StringValue() string { return n.s }

type customComment struct {
	Wrapped
	s string
}

func (n *customComment) Value() interface{}     { return nil }
func (n *customComment) CommentLiteral() string { return n.s }
func (n *customComment) Valueless()             {}

type customSpace struct {
	Wrapped
	s string
}

func (n *customSpace) Value() interface{} { return nil }
func (n *customSpace) Whitespace() string { return n.s }
func (n *customSpace) Valueless()         {}

// Factory is a custom form factory. Trivia are the comments and white space met.
type Factory struct{ Trivia []form.Form }

func (f *Factory) NewList(forms []form.Form, span sexpr.SourceSpan) (form.List, error) {
	l := &CustomList{Wrapped: Wrapped{span}, All: append([]form.Form(nil), forms...)}
	for _, x := range forms {
		if _, ok := x.(form.Valueless); !ok {
			l.Vals = append(l.Vals, x)
		}
	}
	return l, nil
}

func (f *Factory) NewNumberForm(v constant.Value, span sexpr.SourceSpan) (form.Number, error) {
	return &customNumber{Wrapped{span}, v}, nil
}

func (f *Factory) NewSymbolForm(s string, span sexpr.SourceSpan) (form.Symbol, error) {
	return &customSymbol{Wrapped{span}, s}, nil
}

func (f *Factory) NewStringForm(s string, span sexpr.SourceSpan) (sexpr.StringForm, error) {
	return &customString{Wrapped{span}, s}, nil
}

func (f *Factory) NewCommentForm(s string, span sexpr.SourceSpan) (sexpr.CommentForm, error) {
	c := &customComment{Wrapped{span}, s}
	f.Trivia = append(f.Trivia, c)
	return c, nil
}

func (f *Factory) NewWhitespaceForm(s string, span sexpr.SourceSpan) (sexpr.WhitespaceForm, error) {
	c := &customSpace{Wrapped{span}, s}
	f.Trivia = append(f.Trivia, c)
	return c, nil
}
