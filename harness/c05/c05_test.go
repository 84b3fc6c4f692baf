package c05

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	"github.com/google/xtoproto/verifharness/conv"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/tab"
	"google.golang.org/protobuf/encoding/prototext"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "batches of random mappings (every supported type, odd but legal names, arbitrary column names, layouts, zones and units, ignored columns, extra fields), whose generated Go and protobuf code is compiled in one build and run on random CSV files (permuted, extra, repeated and missing columns, bad cells, ragged rows, all ways of reading, hooks that fail); every batch and every file read counts as an evaluation; non-trivial: the batches, and the files with at least one data row or a missing column; distinct by mapping, file and way of reading")
}

type col struct {
	m                  *pb.ColumnToFieldMapping
	layout, zone, unit string
}

type job struct {
	m      *pb.RecordProtoMapping
	cols   []col // mapped columns
	files  []file
	fields map[int32]string // types of the extra fields by tag
}

type file struct {
	csv    string
	mode   string
	newErr bool
	rows   []row
	hooks  []conv.Hook
	extra  int
	opts   int
}

type row struct {
	bad  bool
	open bool // bad for a time that no Timestamp can hold: hooks may see it or not
	msg  string
}

var oddNames = []string{"message", "string", "import", "type", "func", "range", "err", "r", "proto", "time", "reset", "descriptor", "proto_message", "marshal", "x__y", "trailing_", "_leading", "__two",
	"a1", "a_1b", "b_2_c", "camelCase", "UPPER_CASE", "get_x", "x", "get_get_x", "get_a1", "value", "msg", "csv", "fmt", "pb", "record", "reader", "sample", "hook", "parsed", "parsed_x", "x_time", "x_duration", "layout", "init", "nil",
	"true", "location", "d", "t", "textcoder", "default", "go", "e_", "extension_map", "unmarshal", "proto_"}

type nameSet struct {
	used map[string]bool
	list []string
}

func fieldName(t *pbt.T, ns *nameSet) string {
	for i := 0; ; i++ {
		var n string
		if len(ns.list) > 0 && gen.OneIn(t.T, 5, "near") {
			// A name whose Go names run into those of another field.
			n = gen.Pick(t.T, "of", ns.list...)
			if strings.HasPrefix(n, "get_") && gen.Bool(t.T, "strip") {
				n = n[4:]
			} else {
				n = gen.Pick(t.T, "prefix", "get_", "get_", "Get_", "get", "parsed_", "_get_") + n + gen.Pick(t.T, "tail", "", "", "_", "_time")
			}
		} else if gen.OneIn(t.T, 3, "oddname") {
			n = gen.Pick(t.T, "odd", oddNames...)
		} else {
			n = gen.Ident(t.T, "f")
			if gen.OneIn(t.T, 3, "digits") {
				n += gen.Pick(t.T, "suffix", "1", "_2", "_3a", "_", "X", "4_b")
			}
		}
		k := strings.ToLower(strings.ReplaceAll(n, "_", ""))
		if k == "" || ns.used[k] || n == "proto_reflect" || n[0] >= '0' && n[0] <= '9' {
			continue
		}
		ns.used[k] = true
		ns.list = append(ns.list, n)
		return n
	}
}

func noCR(s string) string { return strings.ReplaceAll(s, "\r", "") }

var layouts = append(append([]string{}, tab.Layouts...), "02.01.2006", "Jan 2, 2006 at 3:04pm (MST)", "2006`01`02", "2006 \"01\" 02", "15h04 2 January 06", "2006-01-02T15:04:05.000-07", "2006\\01\\02 %d", "2006年1月2日")

func drawJob(t *pbt.T, i int) *job {
	j := &job{fields: map[int32]string{}}
	m := &pb.RecordProtoMapping{}
	j.m = m
	m.PackageName = gen.Pick(t.T, "pkg", fmt.Sprintf("p%d", i), fmt.Sprintf("p%d.q_r.s", i), "")
	m.MessageName = gen.Pick(t.T, "msg", "M", "Record", "my_message", "lower", "New", "Reader", "Sample", "_M", "A_b", "Time", "x1", "Proto", "error", "string", "newRowStruct")
	if m.PackageName == "" {
		m.MessageName += fmt.Sprintf("%dx", i)
	}
	m.GoOptions = &pb.GoOptions{GoPackageName: gen.Pick(t.T, "gopkg", "conv", "time", "pb", "x_y", "csv"), ProtoImport: fmt.Sprintf("github.com/google/xtoproto/verifharness/zzgen/pb%d", i)}
	names := &nameSet{used: map[string]bool{}}
	tags := map[int32]bool{}
	tag := func() int32 {
		for {
			n := int32(gen.Pick(t.T, "tag", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 100, 18999, 20000, 536870911))
			if len(tags) >= 8 {
				n = 1000 + int32(len(tags))
			}
			if !tags[n] {
				tags[n] = true
				return n
			}
		}
	}
	colNames := map[string]bool{}
	ncols := gen.Int(t.T, 0, 6, "cols")
	if gen.OneIn(t.T, 12, "wide") {
		ncols = gen.Int(t.T, 15, 50, "manycols")
	}
	for k, n := 0, ncols; k < n; k++ {
		name := noCR(tab.Header(t.T))
		if !gen.OneIn(t.T, 12, "samecol") {
			for colNames[name] {
				name += "'"
			}
		}
		colNames[name] = true
		c := &pb.ColumnToFieldMapping{ColName: name, ColumnIndex: int32(gen.Int(t.T, 0, 7, "idx")), Comment: strings.ReplaceAll(gen.Text(t.T, 8, "comment"), "\ufeff", "")} // protoc-gen-go cannot put a byte order mark into a comment
		m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, c)
		if gen.OneIn(t.T, 5, "ignored") {
			c.Ignored = true
			c.ProtoType = gen.Pick(t.T, "itype", "", "bytes", "google.protobuf.Timestamp", "int32")
			c.ProtoName = gen.Pick(t.T, "iname", "", "x", "bad name")
			switch gen.Int(t.T, 0, 5, "iformat") {
			case 0, 1:
				c.ParsingInfo = &pb.ColumnToFieldMapping_TimeFormat{TimeFormat: &pb.TimeFormat{GoLayout: gen.Pick(t.T, "ilayout", "", "2006", "x"), TimeZoneName: gen.Pick(t.T, "izone", "", "UTC", "Nowhere/No")}}
			case 2:
				c.ParsingInfo = &pb.ColumnToFieldMapping_DurationFormat{DurationFormat: &pb.DurationFormat{GoUnitSuffix: gen.Pick(t.T, "iunit", "", "s", "parsec")}}
			}
			if gen.OneIn(t.T, 3, "isame") && len(names.list) > 0 {
				c.ProtoName = gen.Pick(t.T, "isamename", names.list...)
				c.ProtoTag = 1
			}
			if gen.OneIn(t.T, 4, "iimport") {
				c.ProtoImports = []string{"no/such/file.proto"}
			}
			continue
		}
		c.ProtoName = fieldName(t, names)
		c.ProtoTag = tag()
		c.ProtoType = gen.Pick(t.T, "type", "int32", "int64", "float", "double", "string", "google.protobuf.Timestamp", "google.protobuf.Timestamp", "google.protobuf.Duration")
		cc := col{m: c}
		switch c.ProtoType {
		case "google.protobuf.Timestamp":
			c.ProtoImports = []string{"google/protobuf/timestamp.proto"}
			cc.layout = gen.Pick(t.T, "layout", layouts...)
			if gen.Bool(t.T, "zoned") {
				cc.zone = gen.Pick(t.T, "zone", gen.Zones...)
			}
			c.ParsingInfo = &pb.ColumnToFieldMapping_TimeFormat{TimeFormat: &pb.TimeFormat{GoLayout: cc.layout, TimeZoneName: cc.zone}}
		case "google.protobuf.Duration":
			c.ProtoImports = []string{"google/protobuf/duration.proto"}
			cc.unit = gen.Pick(t.T, "unit", "", "s", "ms", "us", "µs", "ns", "m", "h", "0s")
			if cc.unit != "" || gen.Bool(t.T, "emptyformat") {
				c.ParsingInfo = &pb.ColumnToFieldMapping_DurationFormat{DurationFormat: &pb.DurationFormat{GoUnitSuffix: cc.unit}}
			}
		}
		j.cols = append(j.cols, cc)
	}
	for k, n := 0, gen.Int(t.T, 0, 2, "extras"); k < n; k++ {
		d := &pb.FieldDefinition{ProtoName: fieldName(t, names), ProtoTag: tag(), ProtoType: gen.Pick(t.T, "etype", "int32", "string", "google.protobuf.Timestamp")}
		if d.ProtoType == "google.protobuf.Timestamp" {
			d.ProtoImports = []string{"google/protobuf/timestamp.proto"}
		}
		j.fields[d.ProtoTag] = d.ProtoType
		m.ExtraFieldDefinitions = append(m.ExtraFieldDefinitions, d)
	}
	hookID := 0
	for k, n := 0, gen.Int(t.T, 1, 5, "files"); k < n; k++ {
		f := drawFile(t, j)
		if k > 0 && gen.OneIn(t.T, 2, "hooks") {
			for h := gen.Int(t.T, 1, 2, "nhooks"); h > 0; h-- {
				hk := conv.Hook{ID: hookID, Late: gen.OneIn(t.T, 3, "late") || len(f.hooks) > 0 && f.hooks[0].Late}
				if gen.OneIn(t.T, 2, "failing") {
					hk.FailOn = []int{gen.Int(t.T, 0, 4, "failon")}
				}
				hookID++
				if len(f.hooks) > 0 && hk.Late {
					f.hooks[0].Late = true // added in this order
				}
				f.hooks = append(f.hooks, hk)
			}
		}
		j.files = append(j.files, f)
	}
	return j
}

// cell draws a text for the column, mostly one that converts.
func cell(t *pbt.T, c col, valid bool) string {
	for i := 0; i < 8; i++ {
		var s string
		switch c.m.ProtoType {
		case "int32":
			s = strconv.Itoa(int(int32(gen.Int64(t.T, "i32"))))
			if !valid {
				s = gen.Pick(t.T, "bad", "", "x", "2147483648", "-2147483649", "1.0", "0x1", " 1", "1_0")
			}
		case "int64":
			s = tab.IntCell(t.T)
			if !valid {
				s = gen.Pick(t.T, "bad", "", "x", "9223372036854775808", "1e3", "1.", " 1")
			}
		case "float":
			s = tab.FloatCell(t.T)
			if !valid {
				s = gen.Pick(t.T, "bad", "", "x", "1e39", "1,5", "1.5 ")
			}
		case "double":
			s = gen.FloatText(t.T, "double")
			if !valid {
				s = gen.Pick(t.T, "bad", "", "x", "1e400", "1.5f")
			}
		case "string":
			s = noCR(gen.Text(t.T, 12, "string"))
		case "google.protobuf.Timestamp":
			zone := c.zone
			if zone == "" {
				zone = "UTC"
			}
			s = tab.TimeCell(t.T, c.layout, mustZone(zone))
			if !valid {
				if gen.Bool(t.T, "unholdable") {
					at := gen.Pick(t.T, "at", time.Date(0, 6, 1, 11, 12, 13, 0, time.UTC), time.Date(1, 1, 1, 0, 30, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 30, 0, 0, time.UTC))
					s = at.Format(c.layout)
					if _, ok, hold := conv.Value(c.m.ProtoType, s, c.layout, c.zone, c.unit); ok && !hold {
						t.Class("times no Timestamp can hold")
						return s
					}
				}
				s = gen.Pick(t.T, "bad", "", "x", "2020-13-01", "20200230") + s
				if gen.OneIn(t.T, 5, "blank") {
					s = gen.Pick(t.T, "blanks", "", " ")
				}
			}
		case "google.protobuf.Duration":
			switch c.unit {
			case "":
				s = gen.Pick(t.T, "dur", "1h2m3s", "-5ms", "0", "1.5h", "2562047h47m16.854775807s", "-2562047h47m16.854775808s", "1ns", "100us", "3µs")
			default:
				s = gen.Pick(t.T, "num", "1", "-2", "0", "1.5", "12345", ".5", "-0.25", "1000000", "1h3")
			}
			if !valid {
				s = gen.Pick(t.T, "bad", "", "", "x", "--1", "1 ", " ", "9999999999999h")
			}
		}
		_, ok, hold := conv.Value(c.m.ProtoType, s, c.layout, c.zone, c.unit)
		if hold && ok == valid {
			return noCR(s)
		}
		if c.m.ProtoType == "string" {
			return s
		}
	}
	if valid {
		switch c.m.ProtoType {
		case "google.protobuf.Timestamp":
			if gen.Bool(t.T, "yearless") {
				// Under a layout without a year, every time is one of the year 0.
				return noCR(time.Date(2020, 5, 6, 7, 8, 9, 0, time.UTC).Format(c.layout))
			}
			return "unparsable after all"
		case "google.protobuf.Duration":
			return "0"
		}
		return "7"
	}
	return "bad"
}

func drawFile(t *pbt.T, j *job) file {
	f := file{mode: gen.Pick(t.T, "mode", "read", "read", "all", "message", "factory"), extra: gen.Int(t.T, 0, 2, "extra"), opts: gen.Int(t.T, 0, 2, "opts")}
	if gen.OneIn(t.T, 30, "empty") {
		f.newErr = true
		f.csv = gen.Pick(t.T, "nothing", "", "\n", "\r\n\n", "a\"b\nc\n", "\"a\"b\nc\n", "\"a")
		return f
	}
	// The header: every mapped column name, those of the ignored ones perhaps, others, in any order.
	var header []string
	have := map[string]bool{}
	for _, c := range j.m.ColumnToFieldMappings {
		if !have[c.ColName] && (!c.Ignored || gen.Bool(t.T, "withignored")) {
			header = append(header, c.ColName)
			have[c.ColName] = true
		}
	}
	for k := gen.Int(t.T, 0, 2, "unmapped"); k > 0; k-- {
		header = append(header, noCR(gen.Text(t.T, 4, "unmappedname"))+"\u00a7")
	}
	if len(header) > 0 && gen.OneIn(t.T, 8, "repeat") {
		header = append(header, gen.Pick(t.T, "repeated", header...))
	}
	if len(header) == 0 {
		header = []string{"only"}
	}
	for a := len(header) - 1; a > 0; a-- {
		b := gen.Int(t.T, 0, a, "perm")
		header[a], header[b] = header[b], header[a]
	}
	if len(j.cols) > 0 && gen.OneIn(t.T, 6, "missing") {
		gone := gen.Pick(t.T, "gone", j.cols...).m.ColName
		var h []string
		for _, c := range header {
			if c != gone {
				h = append(h, c)
			}
		}
		if len(h) == 0 {
			h = []string{"none"}
			if gone == "none" {
				h[0] = "nil"
			}
		}
		header = h
		f.newErr = true
		t.Class("files without a mapped column")
	}
	index := map[string]int{}
	for k, h := range header {
		index[h] = k // the last one counts
	}
	recs := [][]string{header}
	for k, n := 0, gen.Int(t.T, 0, 6, "rows"); k < n; k++ {
		rec := make([]string, len(header))
		for x := range rec {
			rec[x] = noCR(gen.Text(t.T, 5, "filler"))
		}
		r := row{}
		badCol := -1
		if len(j.cols) > 0 && gen.OneIn(t.T, 7, "badrow") {
			badCol = gen.Int(t.T, 0, len(j.cols)-1, "badcol")
		}
		set := map[int]bool{}
		for x, c := range j.cols {
			if k, ok := index[c.m.ColName]; ok && !set[k] {
				rec[k] = cell(t, c, x != badCol)
				set[k] = true
			}
		}
		var fs []conv.Field
		unreadable := false
		for _, c := range j.cols {
			k, ok := index[c.m.ColName]
			if !ok {
				continue
			}
			v, ok, hold := conv.Value(c.m.ProtoType, rec[k], c.layout, c.zone, c.unit)
			if !ok || !hold {
				r.bad, r.open = true, true
				unreadable = unreadable || !ok
			}
			fs = append(fs, conv.Field{Tag: c.m.ProtoTag, Text: v})
		}
		r.open = r.open && !unreadable
		if gen.OneIn(t.T, 12, "ragged") {
			r.bad, r.open = true, false
			if len(rec) > 1 && gen.Bool(t.T, "short") {
				rec = rec[:len(rec)-1]
				if len(rec) == 1 && rec[0] == "" {
					rec[0] = "s"
				}
			} else {
				rec = append(rec, "long")
			}
			t.Class("rows ragged")
		}
		for tag, ty := range j.fields {
			fs = append(fs, conv.Field{Tag: tag, Text: conv.Zero(ty)})
		}
		r.msg = conv.Dump(fs)
		f.rows = append(f.rows, r)
		recs = append(recs, rec)
		if r.bad {
			t.Class("rows bad")
		} else {
			t.Class("rows good")
		}
	}
	f.csv = gen.CSV(t.T, recs, "csv")
	if gen.OneIn(t.T, 6, "malformed") {
		// A last line that is no CSV record.
		if !strings.HasSuffix(f.csv, "\n") {
			f.csv += "\n"
		}
		rest := strings.Repeat(",1", len(header)-1)
		f.csv += gen.Pick(t.T, "malformation", "say \"no\" more"+rest, "7\""+rest, "\"7\"7"+rest, "\"7\" "+rest, "\"7"+rest, "7,\"", "\"") + gen.Pick(t.T, "lastnewline", "", "\n")
		f.rows = append(f.rows, row{bad: true})
		t.Class("rows malformed")
	}
	return f
}

func describe(j *job) string {
	b, _ := prototext.MarshalOptions{}.Marshal(j.m)
	s := string(b)
	for _, f := range j.files {
		s += fmt.Sprintf("\n  %s hooks=%v %q", f.mode, f.hooks, f.csv)
	}
	return s
}

var inJob = regexp.MustCompile(`zzgen/[a-z]+(\d+)|\bm(\d+)\.(?:proto|pb\.go)`)

func TestConverters(t *testing.T) {
	pbt.Check(t, 12, func(t *pbt.T) {
		n := gen.Int(t.T, 30, 40, "jobs")
		var jobs []*job
		var cjobs []conv.Job
		var desc []string
		for i := 0; i < n; i++ {
			j := drawJob(t, i)
			jobs = append(jobs, j)
			desc = append(desc, describe(j))
		}
		t.Case(true, strings.Join(desc, "\n"))
		for _, j := range jobs {
			p, g, err := csvtoproto.GenerateCode(j.m, true, true)
			if err != nil {
				t.Fatalf("GenerateCode(%s): %v", describe(j), err)
			}
			cj := conv.Job{Proto: p, Go: g, Together: len(jobs[0].files)%2 == 1}
			for _, f := range j.files {
				cj.Runs = append(cj.Runs, conv.Run{CSV: f.csv, Mode: f.mode, Hooks: f.hooks, Extra: f.extra, Opts: f.opts})
				t.Class("files")
				t.Sub(len(f.rows) > 0 || f.newErr, fmt.Sprintf("%s %s %v %q", b64(j.m), f.mode, f.hooks, f.csv))
			}
			cjobs = append(cjobs, cj)
			t.Class("mappings")
		}
		res, complaint := conv.RunAll(pbt.Scratch("c05"), cjobs)
		if strings.HasPrefix(complaint, "HARNESS") {
			pbt.Infra("%s", complaint)
		}
		if res == nil {
			about := ""
			if m := inJob.FindStringSubmatch(complaint); m != nil {
				i, _ := strconv.Atoi(m[1] + m[2])
				if i < len(jobs) {
					about = describe(jobs[i]) + "\n" + cjobs[i].Go
				}
			}
			t.Fatalf("the generated code does not compile or run: %s\nmapping concerned: %s", complaint, about)
		}
		for i, j := range jobs {
			if msg := compare(j, res[i]); msg != "" {
				t.Fatalf("%s\nmapping and files: %s", msg, describe(j))
			}
		}
	})
}

// compare checks the outcome of all files of a job against the model.
func compare(j *job, res []conv.Result) string {
	var hooks []conv.Hook
	calls := map[int]int{}
	for k, f := range j.files {
		r := res[k]
		where := fmt.Sprintf("file %d (%s %q): ", k, f.mode, f.csv)
		if r.Panic != "" {
			return where + "panic: " + r.Panic
		}
		hooks = append(hooks, f.hooks...)
		if (r.NewErr != "") != f.newErr {
			return fmt.Sprintf("%sopening gives error %q, want an error: %v", where, r.NewErr, f.newErr)
		}
		if f.newErr {
			continue
		}
		var steps []conv.Step
		ev := r.Events
		for _, row := range f.rows {
			if row.open && len(hooks) > 0 && len(ev) > 0 && ev[0].Errs > 0 {
				// The hooks are shown the row along with the error.
				for _, h := range hooks {
					if len(ev) == 0 || ev[0].Hook != h.ID || !ev[0].OptsOK || ev[0].Errs == 0 {
						return fmt.Sprintf("%shook calls %+v, want hook %d for a row with an error", where, ev, h.ID)
					}
					ev = ev[1:]
					calls[h.ID]++
				}
			}
			if row.bad {
				steps = append(steps, conv.Step{Err: "any"})
				if f.mode == "all" {
					break
				}
				continue
			}
			failed := false
			for _, h := range hooks {
				if len(ev) == 0 {
					return fmt.Sprintf("%shook %d is not called for %s", where, h.ID, row.msg)
				}
				if ev[0].Hook != h.ID || ev[0].Msg != row.msg || !ev[0].OptsOK || ev[0].Errs != 0 && !failed {
					return fmt.Sprintf("%shook call %+v, want hook %d with %s", where, ev[0], h.ID, row.msg)
				}
				ev = ev[1:]
				for _, n := range h.FailOn {
					failed = failed || n == calls[h.ID]
				}
				calls[h.ID]++
			}
			if failed {
				steps = append(steps, conv.Step{Err: "any"})
				if f.mode == "all" {
					break
				}
			} else {
				steps = append(steps, conv.Step{Msg: row.msg})
			}
		}
		if len(ev) != 0 {
			return fmt.Sprintf("%shook calls too many: %+v", where, ev)
		}
		if f.mode == "all" {
			if len(steps) == 0 || steps[len(steps)-1].Err == "" {
				steps = append(steps, conv.Step{})
			}
		} else {
			for x := 0; x <= f.extra; x++ {
				steps = append(steps, conv.Step{Err: "EOF"})
			}
		}
		if len(steps) != len(r.Steps) {
			return fmt.Sprintf("%s%d results, want %d: %+v, want %+v", where, len(r.Steps), len(steps), r.Steps, steps)
		}
		for x, want := range steps {
			got := r.Steps[x]
			switch {
			case want.Err == "any":
				if !strings.HasPrefix(got.Err, "error: ") {
					return fmt.Sprintf("%sresult %d is %+v, want an error", where, x, got)
				}
			case want.Err != got.Err, want.Err == "" && want.Msg != got.Msg:
				return fmt.Sprintf("%sresult %d is %+v, want %+v", where, x, got, want)
			}
		}
	}
	return ""
}

// Recorded inputs of repaired defects, all in one build.
func TestRegressions(t *testing.T) {
	pbt.Regression(t, "compile", func() string {
		imp := func(i int) *pb.GoOptions {
			return &pb.GoOptions{GoPackageName: "c", ProtoImport: fmt.Sprintf("github.com/google/xtoproto/verifharness/zzgen/pb%d", i)}
		}
		ts := []string{"google/protobuf/timestamp.proto"}
		col := func(name, field, ty string, tag int32, imps ...string) *pb.ColumnToFieldMapping {
			c := &pb.ColumnToFieldMapping{ColName: name, ProtoName: field, ProtoType: ty, ProtoTag: tag, ProtoImports: imps}
			if ty == "google.protobuf.Timestamp" {
				c.ParsingInfo = &pb.ColumnToFieldMapping_TimeFormat{TimeFormat: &pb.TimeFormat{GoLayout: "2006-01-02"}}
			}
			return c
		}
		d := col("d", "d", "google.protobuf.Duration", 1, "google/protobuf/duration.proto")
		d.ParsingInfo = &pb.ColumnToFieldMapping_DurationFormat{DurationFormat: &pb.DurationFormat{GoUnitSuffix: "ms"}}
		ms := []*pb.RecordProtoMapping{
			{PackageName: "p0", MessageName: "M", GoOptions: imp(0), ColumnToFieldMappings: []*pb.ColumnToFieldMapping{d}},
			{PackageName: "p1", MessageName: "M", GoOptions: imp(1), ColumnToFieldMappings: []*pb.ColumnToFieldMapping{col("d", "a`b", "int32", 1)}},
			{PackageName: "p2", MessageName: "New", GoOptions: imp(2), ColumnToFieldMappings: []*pb.ColumnToFieldMapping{col("d", "a", "int32", 1)}},
			{PackageName: "p3", MessageName: "my_message", GoOptions: imp(3), ColumnToFieldMappings: []*pb.ColumnToFieldMapping{col("d", "a_1", "int32", 1), col("d", "proto", "int32", 2), col("d", "get_x", "int32", 3), col("d", "x", "int32", 4), col("d", "string", "int32", 5)}},
			{PackageName: "p4", MessageName: "M", GoOptions: imp(4), ColumnToFieldMappings: []*pb.ColumnToFieldMapping{col("d", "x", "google.protobuf.Timestamp", 1, ts...), col("d", "y", "google.protobuf.Timestamp", 2, ts...)}},
		}
		ms[1].ColumnToFieldMappings[0].ColName, ms[1].ColumnToFieldMappings[0].ProtoName = "a`b", "a"
		csvs := []string{"d\n5\n", "a`b\n5\n", "d\n5\n", "d\n5\n", "d\n2020-01-02\n"}
		want := []string{"000001=/0/5000000", "000001=5", "000001=5", "000001=5 000002=5 000003=5 000004=5 000005=5", "000001=/1577923200/0 000002=/1577923200/0"}
		var jobs []conv.Job
		for i, m := range ms {
			p, g, err := csvtoproto.GenerateCode(m, true, true)
			if err != nil {
				return err.Error()
			}
			jobs = append(jobs, conv.Job{Proto: p, Go: g, Runs: []conv.Run{{CSV: csvs[i], Mode: "read"}}})
		}
		res, complaint := conv.RunAll(pbt.Scratch("c05"), jobs)
		if res == nil {
			return complaint
		}
		for i := range ms {
			r := res[i][0]
			if r.NewErr != "" || r.Panic != "" || len(r.Steps) != 2 || r.Steps[0].Msg != want[i] || r.Steps[0].Err != "" {
				return fmt.Sprintf("mapping %d reads %+v, want %s", i, r, want[i])
			}
		}
		return ""
	})
}

func mustZone(name string) *time.Location {
	loc, err := time.LoadLocation(name)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return loc
}

func b64(m *pb.RecordProtoMapping) string {
	b, _ := prototext.MarshalOptions{}.Marshal(m)
	return string(b)
}
