package c01

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoproto"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/verifharness/conv"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/tab"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "batches of random tables with distinct column names (integer, float, time, text and mixed columns; every encoding of the CSV text; every zone option): infer, generate, compile all in one build, run each converter on its own CSV text and compare every field with the cell read by the type the values call for; every batch and every table counts as an evaluation; non-trivial: a table with a column that is not text or at least two columns; distinct by text and options")
}

const imp = "github.com/google/xtoproto/verifharness/zzgen/pb%d"

type table struct {
	rows [][]string
	text string
	loc  *time.Location
	opts *recordinfer.Options
}

// end infers and generates; the expected steps are those of the table.
func end(i int, tb *table) (conv.Job, []conv.Step, string) {
	mapping, err := csvinfer.InferProto(tb.text, tb.opts)
	if err != nil {
		return conv.Job{}, nil, "inference fails: " + err.Error()
	}
	m := mapping.Mapping()
	p, g, err := csvtoproto.GenerateCode(m, true, true)
	if err != nil {
		return conv.Job{}, nil, fmt.Sprintf("generation fails: %v for %v", err, m)
	}
	var types, layouts []string
	zone := ""
	if tb.loc != nil {
		zone = tb.loc.String()
	}
	for c := range tb.rows[0] {
		vs := tab.Values(tb.rows, c)
		ty := tab.Type(vs, tb.loc)
		layout := ""
		if ty == "google.protobuf.Timestamp" {
			// Any layout that fits will do, but the one chosen must.
			layout = m.ColumnToFieldMappings[c].GetTimeFormat().GetGoLayout()
			if !tab.LayoutFits(layout, vs, tb.loc) {
				return conv.Job{}, nil, fmt.Sprintf("column %d has layout %q, which does not fit %q", c, layout, vs)
			}
		}
		types, layouts = append(types, ty), append(layouts, layout)
	}
	var steps []conv.Step
	for _, row := range tb.rows[1:] {
		var fs []conv.Field
		for c, cell := range row {
			ty, layout := types[c], layouts[c]
			v, ok, hold := conv.Value(ty, cell, layout, zone, "")
			if !ok || !hold {
				pbt.Infra("cell %q of type %s does not convert in the model", cell, ty)
			}
			fs = append(fs, conv.Field{Tag: int32(c + 1), Text: v})
		}
		steps = append(steps, conv.Step{Msg: conv.Dump(fs)})
	}
	steps = append(steps, conv.Step{Err: "EOF"})
	modes := []string{"read", "message", "factory"}
	return conv.Job{Proto: p, Go: g, Together: i%3 == 2, Runs: []conv.Run{{CSV: tb.text, Mode: modes[i%3]}, {CSV: tb.text, Mode: "all"}}}, steps, ""
}

func compare(steps []conv.Step, res []conv.Result) string {
	for k, r := range res {
		if r.Panic != "" || r.NewErr != "" {
			return fmt.Sprintf("panic %q, error on opening %q", r.Panic, r.NewErr)
		}
		want := append([]conv.Step{}, steps...)
		if k == 1 {
			want[len(want)-1] = conv.Step{}
		}
		if len(r.Steps) != len(want) {
			return fmt.Sprintf("%d results, want %d: %+v", len(r.Steps), len(want), r.Steps)
		}
		for i, w := range want {
			if g := r.Steps[i]; g.Err != w.Err || w.Err == "" && g.Msg != w.Msg {
				return fmt.Sprintf("record %d is %+v, want %+v", i, g, w)
			}
		}
	}
	return ""
}

var inJob = regexp.MustCompile(`zzgen/[a-z]+(\d+)|\bm(\d+)\.(?:proto|pb\.go)`)

func runAll(tbs []*table) (int, string) {
	var jobs []conv.Job
	var steps [][]conv.Step
	for i, tb := range tbs {
		j, s, msg := end(i, tb)
		if msg != "" {
			return i, msg
		}
		jobs, steps = append(jobs, j), append(steps, s)
	}
	res, complaint := conv.RunAll(pbt.Scratch("c01"), jobs)
	if strings.HasPrefix(complaint, "HARNESS") {
		pbt.Infra("%s", complaint)
	}
	if res == nil {
		i := 0
		if m := inJob.FindStringSubmatch(complaint); m != nil {
			i, _ = strconv.Atoi(m[1] + m[2])
		}
		if i >= len(tbs) {
			i = 0
		}
		return i, "the generated code does not compile or run: " + complaint
	}
	for i := range tbs {
		if msg := compare(steps[i], res[i]); msg != "" {
			return i, msg
		}
	}
	return -1, ""
}

func describe(tb *table) string {
	return fmt.Sprintf("zone %v, message %s, package %q, text %q", tb.loc, tb.opts.MessageName, tb.opts.PackageName, tb.text)
}

func TestEndToEnd(t *testing.T) {
	pbt.Check(t, 40, func(t *pbt.T) {
		var tbs []*table
		var desc []string
		for i, n := 0, gen.Int(t.T, 30, 40, "tables"); i < n; i++ {
			tb := &table{loc: tab.Location(t.T)}
			tb.opts = &recordinfer.Options{MessageName: gen.Pick(t.T, "msg", "M", "Record", "my_message", "CamelCase", "x1"), PackageName: fmt.Sprintf("p%d", i), GoPackageName: "conv",
				GoProtoImport: fmt.Sprintf(imp, i), TimestampLocation: tb.loc}
			tb.rows = tab.Table(t.T, 7, 8, tb.loc)
			used := map[string]bool{}
			for c, h := range tb.rows[0] {
				h = strings.ReplaceAll(h, "\r", "")
				for used[h] {
					h += gen.Pick(t.T, "distinct", " ", "_", "x", "-", "2")
				}
				used[h] = true
				tb.rows[0][c] = h
			}
			for _, r := range tb.rows[1:] {
				for c := range r {
					r[c] = strings.ReplaceAll(r[c], "\r", "")
				}
			}
			if gen.OneIn(t.T, 30, "long") {
				tb.rows = tab.Stretch(t.T, tb.rows)
				t.Class("long")
			} else if gen.OneIn(t.T, 60, "wide") || gen.OneIn(t.T, 20, "longtexts") {
				if gen.Bool(t.T, "widerows") {
					tb.rows = tab.Wide(t.T)
				} else {
					tb.rows = tab.Long(t.T, tb.rows)
				}
				used := map[string]bool{}
				for c, h := range tb.rows[0] {
					h = strings.ReplaceAll(h, "\r", "")
					for used[h] {
						h += strconv.Itoa(c)
					}
					used[h] = true
					tb.rows[0][c] = h
				}
				t.Class("wide or long texts")
			}
			tb.text = gen.CSV(t.T, tb.rows, "csv")
			tbs = append(tbs, tb)
			desc = append(desc, describe(tb))
			nontrivial := len(tb.rows[0]) > 1
			for c := range tb.rows[0] {
				ty := tab.Type(tab.Values(tb.rows, c), tb.loc)
				nontrivial = nontrivial || ty != "string"
				t.Class("columns " + ty)
			}
			t.Class("tables")
			t.Sub(nontrivial, describe(tb))
		}
		t.Case(true, strings.Join(desc, "\n"))
		if i, msg := runAll(tbs); msg != "" {
			t.Fatalf("%s\n%s", msg, describe(tbs[i]))
		}
	})
}

// Recorded inputs of repaired defects, all in one build.
func TestRegressions(t *testing.T) {
	pbt.Regression(t, "end-to-end", func() string {
		ny, _ := time.LoadLocation("America/New_York")
		var tbs []*table
		for i, rows := range [][][]string{
			{{"at"}, {"3:04PM"}, {"4:05AM"}},
			{{"1st", "", "a b", "a_b", "A B", "%"}, {"1", "2", "3", "4", "5", "6"}},
			{{"a`b"}, {"x"}},
			{{"From", "to"}, {"2020-01-02", "2020/03/04"}},
			{{"q_1", "proto"}, {"1.5", "1"}},
		} {
			tb := &table{rows: rows, loc: ny}
			for _, r := range rows {
				tb.text += strings.Join(r, ",") + "\n"
			}
			tb.opts = &recordinfer.Options{MessageName: "M", PackageName: fmt.Sprintf("p%d", i), GoPackageName: "conv", GoProtoImport: fmt.Sprintf(imp, i), TimestampLocation: ny}
			tbs = append(tbs, tb)
		}
		if i, msg := runAll(tbs); msg != "" {
			return msg + "\n" + describe(tbs[i])
		}
		return ""
	})
}
