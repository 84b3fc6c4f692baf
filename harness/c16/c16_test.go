package c16

import (
	"fmt"
	"io"
	"testing"

	"github.com/google/xtoproto/sexpr"
	"github.com/google/xtoproto/sexpr/form"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/sx"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "documents of forms (nested lists, quotes, symbols, strings, numbers in every notation) laid out with generated white space, comments and escapes, read with the default and a custom factory; also token soups, against a reference reader; non-trivial: at least three forms in the tree (soups: at least one form); distinct by text")
}

func readAll(r *sexpr.FormReader, limit int) ([]form.Form, error) {
	var fs []form.Form
	for {
		f, err := r.ReadForm()
		if err == io.EOF {
			return fs, nil
		}
		if err != nil {
			return fs, err
		}
		fs = append(fs, f)
		if len(fs) > limit {
			return fs, fmt.Errorf("more forms than the text has characters")
		}
	}
}

func compare(fs []form.Form, ns []*sx.Node) string {
	for i, n := range ns {
		if i >= len(fs) {
			return fmt.Sprintf("%d forms, want %d: %s is missing", len(fs), len(ns), n)
		}
		if m := sx.Differs(fs[i], n); m != "" {
			return fmt.Sprintf("form %d: %s", i, m)
		}
	}
	if len(fs) > len(ns) {
		return fmt.Sprintf("%d forms, want %d", len(fs), len(ns))
	}
	return ""
}

func TestDocuments(t *testing.T) {
	pbt.Check(t, 80000, func(t *pbt.T) {
		ns := sx.Forms(t.T)
		text := sx.Layout(t.T, ns)
		count := 0
		sx.Walk(ns, func(n *sx.Node) {
			count++
			t.Class([]string{"list", "symbol", "string", "number"}[n.Kind])
		})
		t.Case(count >= 3, fmt.Sprintf("%q", text))
		var opts []sexpr.Option
		if gen.OneIn(t.T, 3, "custom") {
			t.Class("custom factory")
			opts = append(opts, sexpr.CustomFormFactory(func(*sexpr.FormReader) sexpr.FormFactory { return &sx.Factory{} }))
		}
		r := sexpr.NewFileReader("in.lisp", text, opts...)
		fs, err := readAll(r, len(text))
		if err != nil {
			t.Fatalf("%v", err)
		}
		if m := compare(fs, ns); m != "" {
			t.Fatalf("%s", m)
		}
		if f, err := r.ReadForm(); f != nil || err != io.EOF {
			t.Fatalf("after the end, ReadForm gives %v, %v", f, err)
		}
	})
}

// Two layouts of the same forms read the same.
func TestLayoutsAgree(t *testing.T) {
	pbt.Check(t, 15000, func(t *pbt.T) {
		ns := sx.Forms(t.T)
		a := sx.Layout(t.T, ns)
		b := sx.Layout(t.T, ns)
		t.Case(a != b, fmt.Sprintf("%q\n%q", a, b))
		for _, text := range []string{a, b} {
			fs, err := readAll(sexpr.NewFileReader("in.lisp", text), len(text))
			if err != nil {
				t.Fatalf("%q: %v", text, err)
			}
			if m := compare(fs, ns); m != "" {
				t.Fatalf("%q: %s", text, m)
			}
		}
	})
}

// Texts put together from the syntax's pieces, well-formed or not.
func TestSoup(t *testing.T) {
	pbt.Check(t, 80000, func(t *pbt.T) {
		text := ""
		for i, n := 0, gen.Int(t.T, 0, 14, "pieces"); i < n; i++ {
			text += gen.Pick(t.T, "piece", "(", ")", "(", ")", "'", "\"", "\"s\"", "\\", " ", "\n", "/", "*", "//", "/*", "*/", "a", "b1", "1", "0x1f", "-", ".", "e3", "_", "é", "\t", "n", "\\\"", "\\\\", "inf", "+", ",", "`", "\\x41", "\\u00e9", "07")
		}
		want, werr := sx.Read(text)
		if werr == sx.ErrUnspecified {
			t.Class("unspecified")
			return
		}
		t.Case(len(want) >= 1, fmt.Sprintf("%q", text))
		fs, err := readAll(sexpr.NewFileReader("f", text), len(text))
		if (err != nil) != (werr != nil) {
			t.Fatalf("%q: error %v, want %v", text, err, werr)
		}
		t.Class(fmt.Sprintf("error %v", err != nil))
		if m := compare(fs, want); m != "" {
			t.Fatalf("%q: %s", text, m)
		}
	})
}

func TestFixed(t *testing.T) {
	for _, text := range []string{"a/b", "/", "(/)", "(a /)", "a/", "/**/b", "/***/ b", "/* x **/ b", `"a\\"`, `("\\" "b")`, `"\\\\" c`, "inf", "-Infinity nan", "(nan)", "'/", "a//c\nb", "a/*c*/b", "+18446744073709551615", "+0xffffffffffffffff", "(+0b1)"} {
		text := text
		pbt.Regression(t, text, func() string {
			want, err := sx.Read(text)
			if err != nil {
				return "reference: " + err.Error()
			}
			fs, err := readAll(sexpr.NewFileReader("f", text), len(text))
			if err != nil {
				return err.Error()
			}
			return compare(fs, want)
		})
	}
	pbt.Regression(t, "custom_factory_trivia", func() string {
		r := sexpr.NewFileReader("f", " a /*c*/ b", sexpr.CustomFormFactory(func(*sexpr.FormReader) sexpr.FormFactory { return &sx.Factory{} }))
		fs, err := readAll(r, 20)
		if err != nil || len(fs) != 2 {
			return fmt.Sprintf("%d forms, %v", len(fs), err)
		}
		return ""
	})
}
