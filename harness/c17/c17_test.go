package c17

import (
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/google/xtoproto/sexpr"
	"github.com/google/xtoproto/sexpr/form"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/sx"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "laid-out documents whose form positions are known; the same documents with one character dropped, doubled, swapped or inserted, and arbitrary texts, against a reference reader; deep nestings; non-trivial: at least three forms, or a text with a fault; distinct by text")
}

func span(f form.Form) string { return f.SourcePosition().String() }

// checkSpans compares positions of a form read and of the node it is.
func checkSpans(f form.Form, n *sx.Node, file string, rs []rune) string {
	want := sx.Span(file, rs, n.Start, n.End)
	if got := span(f); got != want {
		return fmt.Sprintf("%s is at %s, want %s", n, got, want)
	}
	if n.Kind == sx.List {
		l := f.(form.List)
		for i, k := range n.Kids {
			if m := checkSpans(l.Nth(i), k, file, rs); m != "" {
				return m
			}
		}
	}
	return ""
}

// tiles checks that the forms, white space and comments of a list follow each
// other without gaps, and that their text is what the file has there.
func tiles(l *sx.CustomList, n *sx.Node, file string, rs []rune) string {
	if n.Quoted {
		if k, ok := l.Vals[1].(*sx.CustomList); ok {
			return tiles(k, n.Kids[1], file, rs)
		}
		return ""
	}
	at, kid := n.Start+1, 0
	for _, f := range l.All {
		size := 0
		switch x := f.(type) {
		case form.Whitespace:
			size = len([]rune(x.Whitespace()))
			if got := string(rs[at:min(at+size, len(rs))]); got != x.Whitespace() {
				return fmt.Sprintf("white space %q at offset %d, where the text has %q", x.Whitespace(), at, got)
			}
		case form.Comment:
			size = len([]rune(x.CommentLiteral()))
			if got := string(rs[at:min(at+size, len(rs))]); got != x.CommentLiteral() {
				return fmt.Sprintf("comment %q at offset %d, where the text has %q", x.CommentLiteral(), at, got)
			}
			if strings.HasPrefix(x.CommentLiteral(), "//") && !strings.HasSuffix(x.CommentLiteral(), "\n") && at+size < len(rs) {
				// The newline belongs to the comment's place or to the white space after it.
				if span(f) == sx.Span(file, rs, at, at+size+1) {
					size++
				}
			}
		default:
			if kid >= len(n.Kids) {
				return fmt.Sprintf("list %s has more forms", n)
			}
			if at != n.Kids[kid].Start {
				return fmt.Sprintf("a gap before %s", n.Kids[kid])
			}
			size = n.Kids[kid].End - at
			if k, ok := f.(*sx.CustomList); ok {
				if m := tiles(k, n.Kids[kid], file, rs); m != "" {
					return m
				}
			}
			kid++
		}
		if want := sx.Span(file, rs, at, at+size); span(f) != want {
			return fmt.Sprintf("%T at %s, want %s", f, span(f), want)
		}
		at += size
	}
	if at != n.End-1 {
		return fmt.Sprintf("list %s is not covered by its parts", n)
	}
	return ""
}

func TestSpans(t *testing.T) {
	pbt.Check(t, 40000, func(t *pbt.T) {
		ns := sx.Forms(t.T)
		text := sx.Layout(t.T, ns)
		rs := []rune(text)
		file := gen.Pick(t.T, "file", "in.lisp", "a/b.x", "")
		count := 0
		sx.Walk(ns, func(*sx.Node) { count++ })
		t.Case(count >= 3, fmt.Sprintf("%q", text))
		custom := gen.Bool(t.T, "custom")
		var opts []sexpr.Option
		if custom {
			opts = append(opts, sexpr.CustomFormFactory(func(*sexpr.FormReader) sexpr.FormFactory { return &sx.Factory{} }))
		}
		r := sexpr.NewFileReader(file, text, opts...)
		for _, n := range ns {
			f, err := r.ReadForm()
			if err != nil {
				t.Fatalf("%v", err)
			}
			if m := sx.Differs(f, n); m != "" {
				t.Fatalf("%s", m)
			}
			if m := checkSpans(f, n, file, rs); m != "" {
				t.Fatalf("%s", m)
			}
			if l, ok := f.(*sx.CustomList); ok {
				if m := tiles(l, n, file, rs); m != "" {
					t.Fatalf("%s", m)
				}
			}
		}
		if _, err := r.ReadForm(); err != io.EOF {
			t.Fatalf("after the last form: %v", err)
		}
		// The text of each form, read alone, is that form.
		sx.Walk(ns, func(n *sx.Node) {
			if n.Kind == sx.Symbol && n.Text == "QUOTE" && n.End == n.Start+1 {
				return // the quote mark alone
			}
			if n.Kind == sx.List && n.End-n.Start > 500 && n.Start%7 != 0 {
				return // for time
			}
			alone := string(rs[n.Start:n.End])
			r := sexpr.NewFileReader("alone", alone)
			f, err := r.ReadForm()
			if err != nil {
				t.Fatalf("%q read alone: %v", alone, err)
			}
			if m := sx.Differs(f, n); m != "" {
				t.Fatalf("%q read alone: %s", alone, m)
			}
			if _, err := r.ReadForm(); err != io.EOF {
				t.Fatalf("%q read alone leaves %v", alone, err)
			}
		})
	})
}

// readAll reads to the end or the first error, and insists on progress.
func readAll(t *pbt.T, text string) ([]form.Form, error) {
	r := sexpr.NewFileReader("dir/f.lisp", text)
	var fs []form.Form
	for {
		f, err := r.ReadForm()
		if err == io.EOF {
			if f != nil {
				t.Fatalf("a form with io.EOF")
			}
			return fs, nil
		}
		if err != nil {
			if !strings.HasPrefix(err.Error(), "dir/f.lisp:") {
				t.Fatalf("error %q does not begin with the file name", err)
			}
			return fs, err
		}
		if f == nil {
			t.Fatalf("ReadForm gives neither a form nor an error")
		}
		fs = append(fs, f)
		if len(fs) > len(text) {
			t.Fatalf("ReadForm does not come to an end")
		}
	}
}

// A document with one fault in it.
func TestMutated(t *testing.T) {
	pbt.Check(t, 60000, func(t *pbt.T) {
		rs := []rune(sx.Layout(t.T, sx.Forms(t.T)))
		if len(rs) == 0 {
			return
		}
		i := gen.Int(t.T, 0, len(rs)-1, "at")
		if gen.Bool(t.T, "delimiter") {
			// Prefer a place that matters.
			for j := range rs {
				if k := (i + j) % len(rs); strings.ContainsRune(`()"\/*'`, rs[k]) {
					i = k
					break
				}
			}
		}
		var out []rune
		switch gen.Int(t.T, 0, 3, "how") {
		case 0:
			out = append(append(out, rs[:i]...), rs[i+1:]...)
		case 1:
			out = append(append(append(out, rs[:i+1]...), rs[i]), rs[i+1:]...)
		case 2:
			out = append(out, rs[:i]...) // cut off
		default:
			out = append(append(append(out, rs[:i]...), gen.Pick(t.T, "ins", '(', ')', '"', '\\', '\'', '/', '*', '\n', '7')), rs[i:]...)
		}
		text := string(out)
		want, werr := sx.Read(text)
		t.Case(werr != nil, fmt.Sprintf("%q", text))
		fs, err := readAll(t, text)
		if werr == sx.ErrUnspecified {
			t.Class("unspecified")
			return
		}
		if werr != nil && strings.HasPrefix(werr.Error(), "strconv") {
			t.Class("fault bad escape digits")
		} else {
			t.Class(fmt.Sprintf("fault %v", werr))
		}
		if (err != nil) != (werr != nil) {
			t.Fatalf("error %v, want %v", err, werr)
		}
		if len(fs) != len(want) {
			t.Fatalf("%d forms, want %d", len(fs), len(want))
		}
		for i, n := range want {
			if m := sx.Differs(fs[i], n); m != "" {
				t.Fatalf("%s", m)
			}
			if m := checkSpans(fs[i], n, "dir/f.lisp", out); m != "" {
				t.Fatalf("%s", m)
			}
		}
	}, pbt.MustTerminate())
}

// Any text at all.
func TestAnyText(t *testing.T) {
	pbt.Check(t, 60000, func(t *pbt.T) {
		text := ""
		for i, n := 0, gen.Int(t.T, 0, 10, "parts"); i < n; i++ {
			switch gen.Int(t.T, 0, 3, "part") {
			case 0:
				text += gen.Text(t.T, 6, "text")
			case 1:
				text += gen.Pick(t.T, "bytes", "\xff", "\x00", "\xc3", "\xed\xa0\x80", "\r\n", "\r", "\v", "\u00a0")
			case 2:
				text += gen.FloatText(t.T, "number")
			default:
				text += gen.Pick(t.T, "piece", "(", ")", "'", "\"", "\\", "//", "/*", "*/", " ", "\n")
			}
		}
		want, werr := sx.Read(text)
		t.Case(werr != nil || len(want) >= 3, fmt.Sprintf("%q", text))
		fs, err := readAll(t, text)
		if werr == sx.ErrUnspecified {
			t.Class("unspecified")
			return
		}
		if (err != nil) != (werr != nil) || len(fs) != len(want) {
			t.Fatalf("%d forms and error %v, want %d and %v", len(fs), err, len(want), werr)
		}
	}, pbt.MustTerminate())
}

// Nesting of any depth is read or refused.
func TestDeep(t *testing.T) {
	pbt.Check(t, 40, func(t *pbt.T) {
		depth := gen.Pick(t.T, "depth", 10, 129, 1000, 5000, 20000, 20000, 20000, 40000, 99999, 3000000)
		open := gen.Pick(t.T, "open", "(", "'", "(a ", "('")
		closing := ""
		if open[0] == '(' {
			closing = ")"
		}
		closed := gen.Bool(t.T, "closed")
		t.Case(true, fmt.Sprintf("%d times %q, closed: %v", depth, open, closed))
		text := strings.Repeat(open, depth)
		if closed {
			text += "x" + strings.Repeat(closing, depth)
		}
		fs, err := readAll(t, text)
		if !closed && err == nil {
			t.Fatalf("an unfinished form was read without an error")
		}
		if closed && depth <= 20000 && (err != nil || len(fs) != 1) {
			t.Fatalf("%d forms, %v", len(fs), err)
		}
	}, pbt.MustTerminate(), pbt.ThoroughMult(2))
}

func TestFixed(t *testing.T) {
	for _, text := range []string{"(/", "(a /", "(", "\"", "\"\\", "\"\\\"", ")", "(()", "'", "(')", "\"a\\\nb\"", "(\"\\\\\" ", "1a", "'1/2"} {
		text := text
		pbt.Regression(t, fmt.Sprintf("rejects_%q", text), func() string {
			r := sexpr.NewFileReader("f", text)
			for i := 0; i < 10; i++ {
				if _, err := r.ReadForm(); err == io.EOF {
					return "accepted"
				} else if err != nil {
					return ""
				}
			}
			return "no end"
		})
	}
	pbt.Regression(t, "deep_nesting", func() string {
		for _, s := range []string{"(", "'"} {
			if _, err := sexpr.NewFileReader("f", strings.Repeat(s, 3000000)).ReadForm(); err == nil || err == io.EOF {
				return fmt.Sprintf("%v", err)
			}
		}
		return ""
	})
}
