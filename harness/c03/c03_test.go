package c03

import (
	"encoding/csv"
	"fmt"
	"strings"
	"testing"

	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/tab"
	"google.golang.org/protobuf/proto"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "histories of AddRow (ragged rows and Build calls in between) against a list of accepted rows; tables written as CSV text in varied encodings against the same rows added directly; CSV texts with one fault put in; non-trivial: a history with a rejected row or a Build before the end, a text with a quoted cell or CRLF, any faulty text; distinct by input")
}

func opts(t *pbt.T) *recordinfer.Options {
	return &recordinfer.Options{MessageName: "M", PackageName: "p", TimestampLocation: tab.Location(t.T)}
}

// TestHistory: AddRow accepts exactly the rows as long as the first, Build
// works exactly with two rows and a column, and neither rejected rows nor
// earlier Builds leave a trace.
func TestHistory(t *testing.T) {
	pbt.Check(t, 6000, func(t *pbt.T) {
		o := opts(t)
		n := gen.Int(t.T, 0, 10, "steps")
		width := gen.Int(t.T, 0, 4, "width")
		b := recordinfer.NewRecordBasedInferrer(o)
		var rows [][]string
		var hist []string
		var kinds []func() string
		for i := 0; i < width; i++ {
			layout := gen.Pick(t.T, "layout", tab.Layouts...)
			switch gen.Int(t.T, 0, 2, "kind") {
			case 0:
				kinds = append(kinds, func() string { return tab.IntCell(t.T) })
			case 1:
				kinds = append(kinds, func() string { return tab.TimeCell(t.T, layout, o.TimestampLocation) })
			default:
				kinds = append(kinds, func() string { return gen.Text(t.T, 5, "text") })
			}
		}
		build := func() {
			res, err := b.Build()
			ok := len(rows) >= 2 && len(rows[0]) > 0
			if (err == nil) != ok {
				t.Case(true, strings.Join(hist, "; "))
				t.Fatalf("Build after %d accepted rows of %d columns: %v", len(rows), width, err)
			}
			if !ok {
				if res != nil {
					t.Fatalf("a failed Build returns a result")
				}
				return
			}
			// The same rows in a fresh inferrer.
			fresh := recordinfer.NewRecordBasedInferrer(o)
			for _, r := range rows {
				if err := fresh.AddRow(append([]string{}, r...)); err != nil {
					t.Fatalf("AddRow(%q): %v", r, err)
				}
			}
			want, err := fresh.Build()
			if err != nil {
				t.Fatalf("Build: %v", err)
			}
			if !proto.Equal(res.Mapping(), want.Mapping()) || res.Code() != want.Code() {
				t.Case(true, strings.Join(hist, "; "))
				t.Fatalf("the result depends on the history:\n%v\nwant\n%v", res.Mapping(), want.Mapping())
			}
			m := res.Mapping()
			for i, c := range m.ColumnToFieldMappings {
				if ty := tab.Type(tab.Values(rows, i), o.TimestampLocation); c.ProtoType != ty || c.ColName != rows[0][i] {
					t.Case(true, strings.Join(hist, "; "))
					t.Fatalf("column %d: %v, want type %s", i, c, ty)
				}
			}
		}
		rejected, builds := 0, 0
		for i := 0; i < n; i++ {
			if gen.OneIn(t.T, 4, "build") {
				hist = append(hist, "Build")
				builds++
				build()
				continue
			}
			w := width
			if gen.OneIn(t.T, 4, "ragged") {
				w = gen.Int(t.T, 0, 5, "w")
			}
			row := []string{}
			for j := 0; j < w; j++ {
				if j < width {
					row = append(row, kinds[j]())
				} else {
					row = append(row, "x")
				}
			}
			hist = append(hist, fmt.Sprintf("AddRow(%q)", row))
			ok := len(rows) == 0 || len(row) == len(rows[0])
			err := b.AddRow(row)
			if (err == nil) != ok {
				t.Case(true, strings.Join(hist, "; "))
				t.Fatalf("AddRow of %d cells after %d rows: %v", len(row), len(rows), err)
			}
			if ok {
				rows = append(rows, append([]string{}, row...))
				if len(rows) == 1 {
					width = len(row)
					for len(kinds) < width {
						kinds = append(kinds, func() string { return "x" })
					}
				}
			} else {
				rejected++
			}
		}
		t.Case(rejected > 0 || builds > 0, strings.Join(hist, "; "))
		build()
		build() // Build may be called again
		if rejected > 0 {
			t.Class("rejected rows")
		}
	})
}

// TestText: the CSV text of a table gives the result of the table.
func TestText(t *testing.T) {
	pbt.Check(t, 6000, func(t *pbt.T) {
		o := opts(t)
		rows := tab.Table(t.T, 5, 10, o.TimestampLocation)
		if gen.OneIn(t.T, 10, "headeronly") {
			rows = rows[:1]
		}
		for _, r := range rows {
			for j := range r {
				r[j] = strings.ReplaceAll(r[j], "\r", "")
			}
		}
		text := gen.CSV(t.T, rows, "csv")
		t.Case(strings.ContainsAny(text, "\"\r"), fmt.Sprintf("%q", text))
		got, gerr := csvinfer.InferProto(text, o)
		b := recordinfer.NewRecordBasedInferrer(o)
		for _, r := range rows {
			if err := b.AddRow(r); err != nil {
				t.Fatalf("AddRow(%q): %v", r, err)
			}
		}
		want, werr := b.Build()
		if (gerr == nil) != (werr == nil) || (gerr == nil) != (len(rows) > 1) {
			t.Fatalf("InferProto of the text: %v; of the rows: %v", gerr, werr)
		}
		if gerr != nil {
			t.Class("header only")
			return
		}
		if !proto.Equal(got.Mapping(), want.Mapping()) || got.Code() != want.Code() {
			t.Fatalf("InferProto of the text:\n%v\nof the rows:\n%v", got.Mapping(), want.Mapping())
		}
	})
}

// TestMalformed: a text with a fault of form is refused, wherever the fault is.
func TestMalformed(t *testing.T) {
	pbt.Check(t, 6000, func(t *pbt.T) {
		o := opts(t)
		nc, nr := gen.Int(t.T, 1, 4, "cols"), gen.Int(t.T, 2, 8, "rows")
		var lines [][]string
		for i := 0; i < nr; i++ {
			var r []string
			for j := 0; j < nc; j++ {
				r = append(r, gen.Pick(t.T, "cell", "a", "1", "x y", `"q"`, `"a,b"`, `""""`, "2020-01-02", "\"l\nm\""))
			}
			lines = append(lines, r)
		}
		ri, ci := gen.Int(t.T, 0, nr-1, "row"), gen.Int(t.T, 0, nc-1, "col")
		fault := gen.Pick(t.T, "fault", "bare", "after", "open", "long", "short", "open2")
		cut := ""
		switch fault {
		case "bare":
			lines[ri][ci] = gen.Pick(t.T, "bare", `a"b`, `a"`, ` "x"`)
		case "after":
			lines[ri][ci] = gen.Pick(t.T, "after", `"a"b`, `"a" `, `"a""b"c"`)
		case "open":
			lines[ri][ci] = `"open`
			lines = lines[:ri+1]
			lines[ri] = lines[ri][:ci+1]
		case "open2":
			lines[nr-1][nc-1] = "\"a\nb\"\""
			cut = "x"
		case "long":
			lines[ri] = append(lines[ri], "extra")
		case "short":
			if nc == 1 {
				lines[ri] = []string{"a", "b"}
			} else {
				lines[ri] = lines[ri][:len(lines[ri])-1]
			}
		}
		var b strings.Builder
		for _, l := range lines {
			b.WriteString(strings.Join(l, ",") + "\n")
		}
		text := b.String() + cut
		t.Case(true, fmt.Sprintf("%s %q", fault, text))
		t.Class(fault)
		// The standard reader must agree that this is a fault, else the generator is wrong.
		if _, err := csv.NewReader(strings.NewReader(text)).ReadAll(); err == nil {
			pbt.Infra("generator: %q has no fault (%s)", text, fault)
		}
		if res, err := csvinfer.InferProto(text, o); err == nil {
			t.Fatalf("InferProto accepts it: %v", res.Mapping())
		}
	})
}
