package c09

import (
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/google/xtoproto/csvcoder"
	"github.com/google/xtoproto/textcoder"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "CSV files (header, good, bad and ragged records; quoting and line ends varied) read by Read, by Read past errors, and by ReadAll with a callback that fails at a drawn record; struct types first met in one goroutine or several; non-trivial: at least two records and a fault, a failing callback or several goroutines; distinct by file text and access plan")
}

// probe is a cell type whose decoder notes the context it was called with.
type probe struct {
	Text   string
	Num    csvcoder.RowNumber
	Path   string
	Header []string
	Cells  []string
	HasCtx bool
}

func init() {
	textcoder.MustRegister(reflect.TypeOf(probe{}),
		func(p probe) (string, error) { return p.Text, nil },
		func(ctx *textcoder.Context, s string, p *probe) error {
			if strings.HasPrefix(s, "bad") {
				return errBad
			}
			*p = probe{Text: s}
			v, _ := ctx.Value("csvcoder.CellContext")
			if cc, ok := v.(*csvcoder.CellContext); ok {
				p.HasCtx = true
				r := cc.Row()
				p.Num, p.Path = r.Number(), r.Path()
				p.Header = append([]string(nil), r.Header().ColumnNames()...)
				p.Cells = append([]string(nil), r.Strings()...)
			}
			return nil
		})
}

var errBad = errors.New("a bad probe")

type rec struct {
	P     probe   `csv:"p"`
	N     int     `csv:"n"`
	S     string  `csv:"the s"`
	F     float64 `csv:"f"`
	Other bool    `csv-skip:""`
}

type want struct {
	cells []string
	fault string // "", "cell", "ragged"
}

// file draws a CSV file for rec with the faults placed at random records.
func file(t *pbt.T, faults bool) (hdr []string, recs []want, text string) {
	hdr = []string{"p", "n", "the s", "f"}
	if gen.OneIn(t.T, 3, "extra") {
		hdr = append(hdr, gen.Pick(t.T, "extracol", "x", "P", "", "N "))
	}
	perm := make([]int, len(hdr))
	for i := range perm {
		perm[i] = i
	}
	for i := len(perm) - 1; i > 0; i-- {
		j := gen.Int(t.T, 0, i, "perm")
		perm[i], perm[j] = perm[j], perm[i]
	}
	base := hdr
	hdr = make([]string, len(base))
	for i, p := range perm {
		hdr[i] = base[p]
	}
	rows := [][]string{hdr}
	n := gen.Int(t.T, 0, 8, "records")
	for i := 0; i < n; i++ {
		w := want{cells: make([]string, len(hdr))}
		bad := ""
		if faults && gen.OneIn(t.T, 5, "fault") {
			bad = gen.Pick(t.T, "faultkind", "p", "n", "f", "ragged")
		}
		for j, h := range hdr {
			c := ""
			switch h {
			case "p":
				c = "q" + clean(gen.Text(t.T, 5, "p"))
				if bad == "p" {
					c = "bad"
				}
			case "n":
				c = strconv.FormatInt(gen.Int64(t.T, "n"), 10)
				if bad == "n" {
					c = gen.Pick(t.T, "badn", "", "x", "1.5", "9223372036854775808", "0x1")
				}
			case "the s":
				c = clean(gen.Text(t.T, 6, "s"))
			case "f":
				c = strconv.FormatFloat(gen.Float64(t.T, "f", false), 'g', -1, 64)
				if bad == "f" {
					c = gen.Pick(t.T, "badf", "", "x", "1,5", "1e999")
				}
			default:
				c = clean(gen.Text(t.T, 3, "x"))
			}
			w.cells[j] = c
		}
		if bad == "ragged" {
			w.fault = "ragged"
			if gen.Bool(t.T, "longer") {
				w.cells = append(w.cells, "more")
			} else {
				w.cells = w.cells[:gen.Int(t.T, 1, len(w.cells)-1, "shorter")]
			}
		} else if bad != "" {
			w.fault = "cell"
		}
		recs = append(recs, w)
		rows = append(rows, w.cells)
	}
	return hdr, recs, gen.CSV(t.T, rows, "csv")
}

func clean(s string) string { return strings.ReplaceAll(s, "\r", "|") }

// value is the reference decoding of one record.
func value(hdr []string, w want, row int, path string) *rec {
	r := &rec{}
	for j, h := range hdr {
		c := w.cells[j]
		switch h {
		case "p":
			r.P = probe{Text: c, Num: csvcoder.RowNumber(row - 1), Path: path, Header: hdr, Cells: w.cells, HasCtx: true}
		case "n":
			n, err := strconv.ParseInt(c, 10, 64)
			if err != nil {
				panic("HARNESS: " + err.Error())
			}
			r.N = int(n)
		case "the s":
			r.S = c
		case "f":
			f, err := strconv.ParseFloat(c, 64)
			if err != nil {
				panic("HARNESS: " + err.Error())
			}
			r.F = f
		}
	}
	return r
}

func checkErr(t *pbt.T, err error, w want, row int, path string) {
	pos := strconv.Itoa(row)
	if path != "" {
		pos = path + ":" + pos
	}
	if err == nil || err == io.EOF {
		t.Fatalf("record at row %d (%q) is bad (%s) but was read with %v", row, w.cells, w.fault, err)
	}
	if !strings.HasPrefix(err.Error(), pos+": ") {
		t.Fatalf("the error of row %d does not begin with its position %q: %v", row, pos, err)
	}
	if w.fault == "ragged" && !errors.Is(err, csv.ErrFieldCount) {
		t.Fatalf("the error of ragged row %d does not wrap csv.ErrFieldCount: %v", row, err)
	}
}

func checkValue(t *pbt.T, got interface{}, w *rec) {
	g, ok := got.(*rec)
	if !ok {
		t.Fatalf("record is a %T, want *rec", got)
	}
	if !reflect.DeepEqual(g, w) {
		t.Fatalf("record is\n%+v\nwant\n%+v", *g, *w)
	}
}

// Read gives each record in turn; a bad record gives an error at its own place
// and the records after it are still read, with their own positions.
func TestRead(t *testing.T) {
	pbt.Check(t, 6000, func(t *pbt.T) {
		hdr, recs, text := file(t, true)
		path := gen.Pick(t.T, "path", "", "a/b.csv", "x", "weird: 7")
		nf := 0
		for _, w := range recs {
			if w.fault != "" {
				nf++
			}
		}
		t.Case(len(recs) >= 2 && nf > 0, fmt.Sprintf("path %q file %q", path, text))
		fp, err := csvcoder.NewFileParser(csv.NewReader(strings.NewReader(text)), path, &rec{})
		if err != nil {
			t.Fatalf("NewFileParser: %v", err)
		}
		var kept []interface{}
		var keptWant []*rec
		for i, w := range recs {
			got, err := fp.Read()
			if w.fault != "" {
				t.Class(w.fault)
				checkErr(t, err, w, i+2, path)
				continue
			}
			if err != nil {
				t.Fatalf("row %d: %v", i+2, err)
			}
			wr := value(hdr, w, i+2, path)
			checkValue(t, got, wr)
			kept, keptWant = append(kept, got), append(keptWant, wr)
		}
		for i := 0; i < 3; i++ {
			if got, err := fp.Read(); err != io.EOF {
				t.Fatalf("after the last record, Read gives %v, %v", got, err)
			}
		}
		// Records already handed out are not touched by later reads.
		for i := range kept {
			checkValue(t, kept[i], keptWant[i])
		}
	})
}

func TestReadAll(t *testing.T) {
	pbt.Check(t, 4000, func(t *pbt.T) {
		hdr, recs, text := file(t, gen.Bool(t.T, "faults"))
		path := gen.Pick(t.T, "path", "", "a/b.csv")
		stop := -1
		if gen.Bool(t.T, "stops") {
			stop = gen.Int(t.T, 0, 8, "stop")
		}
		pre := 0 // records read one by one first
		if gen.OneIn(t.T, 3, "mixed") {
			pre = gen.Int(t.T, 0, 3, "pre")
		}
		t.Case(len(recs) >= 2, fmt.Sprintf("stop %d pre %d file %q", stop, pre, text))
		fp, err := csvcoder.NewFileParser(csv.NewReader(strings.NewReader(text)), path, &rec{})
		if err != nil {
			t.Fatalf("NewFileParser: %v", err)
		}
		for i := 0; i < pre; i++ {
			fp.Read()
		}
		if pre > len(recs) {
			pre = len(recs)
		}
		// What should happen.
		var wantVals []*rec
		var wantErr string
		cbErr := fmt.Errorf("callback says no")
		if gen.OneIn(t.T, 3, "wrapped") {
			cbErr = fmt.Errorf("callback: %w", io.ErrUnexpectedEOF)
		} else if gen.OneIn(t.T, 3, "eof") {
			cbErr = io.EOF // the callback's own, which is no end of the file
		}
		end := len(recs)
		for i := pre; i < len(recs); i++ {
			if recs[i].fault != "" {
				wantErr, end = "row", i
				break
			}
			wantVals = append(wantVals, value(hdr, recs[i], i+2, path))
			if len(wantVals)-1 == stop {
				wantErr, end = "callback", i
				break
			}
		}
		n := 0
		err = fp.ReadAll(func(v interface{}) error {
			if n >= len(wantVals) {
				t.Fatalf("callback called more than %d times", len(wantVals))
			}
			checkValue(t, v, wantVals[n])
			n++
			if n-1 == stop {
				return cbErr
			}
			return nil
		})
		t.Class("end=" + wantErr)
		if n != len(wantVals) {
			t.Fatalf("callback called %d times, want %d (%v)", n, len(wantVals), err)
		}
		switch wantErr {
		case "":
			if err != nil {
				t.Fatalf("ReadAll: %v", err)
			}
		case "callback":
			if !errors.Is(err, cbErr) || cbErr == io.EOF && err != io.EOF {
				t.Fatalf("ReadAll: %v, want the callback's error", err)
			}
		default:
			checkErr(t, err, recs[end], end+2, path)
		}
		// Reading goes on after the record that stopped it.
		for i := end + 1; i < len(recs); i++ {
			got, err := fp.Read()
			if recs[i].fault != "" {
				checkErr(t, err, recs[i], i+2, path)
			} else if err != nil {
				t.Fatalf("row %d: %v", i+2, err)
			} else {
				checkValue(t, got, value(hdr, recs[i], i+2, path))
			}
		}
	})
}

// blank is a row type that every record decodes into, empty ones included.
type (
	word  string
	blank struct {
		A string `csv:"a"`
		B word   `csv:"b"`
		C string `csv:"c" csv-skip:""`
		D string
	}
)

// Records of any lengths, from a reader that lets them through: a record counts
// even if it is empty or its cells are; it is bad when a needed cell is absent;
// further cells are no matter.
func TestLoose(t *testing.T) {
	pbt.Check(t, 4000, func(t *pbt.T) {
		hdr := []string{"a", "b", "D"}
		for i, n := 0, gen.Int(t.T, 0, 2, "extra"); i < n; i++ {
			hdr = append(hdr, gen.Pick(t.T, "extracol", "c", "x", "", "A"))
		}
		for i := len(hdr) - 1; i > 0; i-- {
			j := gen.Int(t.T, 0, i, "perm")
			hdr[i], hdr[j] = hdr[j], hdr[i]
		}
		all := [][]string{hdr}
		odd := false
		for i, n := 0, gen.Int(t.T, 0, 8, "records"); i < n; i++ {
			k := len(hdr)
			if gen.OneIn(t.T, 2, "ragged") {
				k = gen.Int(t.T, 1, len(hdr)+2, "cells")
			}
			row := make([]string, k)
			if gen.Bool(t.T, "filled") {
				for j := range row {
					row[j] = clean(gen.Text(t.T, 3, "cell"))
				}
			} else {
				odd = true
			}
			odd = odd || k != len(hdr)
			all = append(all, row)
		}
		text := gen.CSV(t.T, all, "csv")
		direct := gen.Bool(t.T, "direct")
		var rr csvcoder.RowReader
		if direct {
			// A reader of its own, which may give records of no cells too.
			if len(all) > 1 && gen.OneIn(t.T, 3, "nocells") {
				all[gen.Int(t.T, 1, len(all)-1, "which")] = gen.Pick(t.T, "nil", nil, []string{})
			}
			rr = &failing{rows: all, at: -1}
		} else {
			cr := csv.NewReader(strings.NewReader(text))
			cr.FieldsPerRecord = -1
			cr.ReuseRecord = false
			rr = cr
		}
		t.Case(len(all) > 2 && odd, fmt.Sprintf("direct %v rows %q", direct, all))
		fp, err := csvcoder.NewFileParser(rr, "dir/l.csv", &blank{})
		if err != nil {
			t.Fatalf("NewFileParser: %v", err)
		}
		column := map[string]int{}
		for j, h := range hdr {
			column[h] = j
		}
		for i, row := range all[1:] {
			got, err := fp.Read()
			want := &blank{}
			bad := false
			for col, dst := range map[string]func(string){"a": func(s string) { want.A = s }, "b": func(s string) { want.B = word(s) }, "D": func(s string) { want.D = s }} {
				if column[col] >= len(row) {
					bad = true
				} else {
					dst(row[column[col]])
				}
			}
			if bad {
				t.Class("short")
				pos := fmt.Sprintf("dir/l.csv:%d: ", i+2)
				if err == nil || err == io.EOF || !strings.HasPrefix(err.Error(), pos) {
					t.Fatalf("row %d is %q, short of a cell, but gives %+v, %v", i+2, row, got, err)
				}
				continue
			}
			if err != nil {
				t.Fatalf("row %d, %q: %v", i+2, row, err)
			}
			if g, ok := got.(*blank); !ok || *g != *want {
				t.Fatalf("row %d, %q, is %+v, want %+v", i+2, row, got, *want)
			}
		}
		if got, err := fp.Read(); err != io.EOF {
			t.Fatalf("after the last record, Read gives %v, %v", got, err)
		}
	})
}

// A file of many records is like one of few.
func TestMany(t *testing.T) {
	pbt.Check(t, 12, func(t *pbt.T) {
		n := gen.Pick(t.T, "records", 100, 1000, 1025, 4097, 10001, 70000)
		bad := map[int]bool{}
		for i, k := 0, gen.Int(t.T, 0, 4, "bad"); i < k; i++ {
			bad[gen.Int(t.T, 0, n-1, "badrow")] = true
		}
		if gen.Bool(t.T, "lastbad") {
			bad[n-1-gen.Int(t.T, 0, 2, "fromend")] = true
		}
		t.Case(true, fmt.Sprintf("%d records, bad %v", n, bad))
		var b strings.Builder
		b.WriteString("n,the s,p,f\n")
		for i := 0; i < n; i++ {
			f := "0.5"
			if bad[i] {
				f = "half"
			}
			fmt.Fprintf(&b, "%d,s%d,q%d,%s\n", i, i, i, f)
		}
		fp, err := csvcoder.NewFileParser(csv.NewReader(strings.NewReader(b.String())), "m.csv", &rec{})
		if err != nil {
			t.Fatalf("NewFileParser: %v", err)
		}
		for i := 0; i < n; {
			err := fp.ReadAll(func(v interface{}) error {
				r := v.(*rec)
				if i >= n || bad[i] || r.N != i || r.S != fmt.Sprint("s", i) || r.P.Text != fmt.Sprint("q", i) || int(r.P.Num) != i+1 || r.F != 0.5 {
					t.Fatalf("record %d is %+v", i, *r)
				}
				i++
				return nil
			})
			if err == nil {
				if i != n {
					t.Fatalf("ReadAll ended after %d records of %d", i, n)
				}
				break
			}
			if !bad[i] || !strings.HasPrefix(err.Error(), fmt.Sprintf("m.csv:%d: ", i+2)) {
				t.Fatalf("at record %d: %v", i, err)
			}
			i++
		}
	})
}

// A reader that fails in the middle: its error is reported, never swallowed.
type failing struct {
	rows [][]string
	err  error
	at   int
	n    int
}

func (f *failing) Read() ([]string, error) {
	f.n++
	if f.n-1 == f.at {
		return nil, f.err
	}
	if f.n-1 >= len(f.rows) {
		return nil, io.EOF
	}
	return f.rows[f.n-1], nil
}

func TestReaderFailure(t *testing.T) {
	pbt.Check(t, 2000, func(t *pbt.T) {
		hdr, recs, text := file(t, false)
		f := &failing{rows: [][]string{hdr}, err: gen.Pick(t.T, "err", io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", io.EOF))}
		for _, w := range recs {
			f.rows = append(f.rows, w.cells)
		}
		f.at = gen.Int(t.T, 0, len(f.rows), "at")
		t.Case(len(recs) >= 2, fmt.Sprintf("fail at %d with %v: %q", f.at, f.err, text))
		fp, err := csvcoder.NewFileParser(f, "in.csv", &rec{})
		if f.at == 0 {
			if err == nil || !errors.Is(err, f.err) {
				t.Fatalf("NewFileParser: %v, want %v", err, f.err)
			}
			return
		}
		if err != nil {
			t.Fatalf("NewFileParser: %v", err)
		}
		n := 0
		err = fp.ReadAll(func(v interface{}) error {
			checkValue(t, v, value(hdr, recs[n], n+2, "in.csv"))
			n++
			return nil
		})
		if n != f.at-1 || err == nil || !errors.Is(err, f.err) {
			t.Fatalf("ReadAll: %d records, %v; want %d records and %v", n, err, f.at-1, f.err)
		}
	})
}

// Position is a row's own number, path and header.
func TestPositions(t *testing.T) {
	pbt.Check(t, 2000, func(t *pbt.T) {
		num := csvcoder.RowNumber(gen.Int(t.T, -1, 1000, "num"))
		if gen.OneIn(t.T, 3, "far") {
			num = csvcoder.RowNumber(gen.Pick(t.T, "farnum", 32766, 32767, 65534, 65535, 65536, 1<<20, 1<<24+1, 1<<31-2))
		}
		path := gen.Pick(t.T, "path", "", "a.csv")
		var names, cells []string
		ncols := gen.Int(t.T, 0, 5, "cols")
		if gen.OneIn(t.T, 20, "wide") {
			ncols = gen.Int(t.T, 60, 300, "ncols")
		}
		for i := 0; i < ncols; i++ {
			if i > 5 {
				names = append(names, gen.Pick(t.T, "name", "a", "b", "c", fmt.Sprint("c", i), fmt.Sprint("c", i)))
				cells = append(cells, "")
				continue
			}
			names = append(names, gen.Pick(t.T, "name", "a", "b", "c", ""))
			cells = append(cells, gen.Text(t.T, 3, "cell"))
		}
		t.Case(len(names) >= 2, fmt.Sprintf("%d %q %q %q", num, path, names, cells))
		h := csvcoder.NewHeader(names)
		r := csvcoder.NewRow(cells, h, num, path)
		if r.Number() != num || r.Path() != path || r.Header() != h || !reflect.DeepEqual(r.Strings(), cells) {
			t.Fatalf("row is %v %v %v %v", r.Number(), r.Path(), r.Header(), r.Strings())
		}
		if csvcoder.NewCellContext(r).Row() != r {
			t.Fatalf("cell context has another row")
		}
		pos := "<unknown row number>"
		if num >= 0 {
			pos = strconv.Itoa(int(num) + 1)
			if !num.IsValid() || num.Ordinal() != int(num)+1 || num.Offset() != int(num) {
				t.Fatalf("row number %d: valid %v ordinal %d offset %d", num, num.IsValid(), num.Ordinal(), num.Offset())
			}
		} else if num.IsValid() {
			t.Fatalf("row number %d is valid", num)
		}
		if path != "" {
			pos = path + ":" + pos
		}
		if r.PositionString() != pos {
			t.Fatalf("position %q, want %q", r.PositionString(), pos)
		}
		if !reflect.DeepEqual(h.ColumnNames(), names) {
			t.Fatalf("column names %q, want %q", h.ColumnNames(), names)
		}
		for _, q := range append([]string{"zz", "a", "A", ""}, names...) {
			want := csvcoder.InvalidColumn
			for i, n := range names {
				if n == q {
					want = csvcoder.ColumnNumber(i)
				}
			}
			if got := h.ColumnIndex(q); got != want || got.IsValid() != (want >= 0) || want >= 0 && got.Offset() != int(want) {
				t.Fatalf("column %q is at %d, want %d", q, got, want)
			}
		}
	})
}

var fresh int
var freshMu sync.Mutex

// freshType makes a struct type that no earlier case has used: the columns' tags
// carry a serial number.
func freshType(kinds []reflect.Type) (reflect.Type, []string) {
	freshMu.Lock()
	fresh++
	id := fresh
	freshMu.Unlock()
	var sf []reflect.StructField
	var hdr []string
	for i, k := range kinds {
		col := fmt.Sprintf("c%d_%d", id, i)
		hdr = append(hdr, col)
		sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: k, Tag: reflect.StructTag("csv:" + strconv.Quote(col))})
	}
	return reflect.StructOf(sf), hdr
}

// a, b, c and d are cell types met for the first time by concurrent readers.
type (
	cellA int32
	cellB string
	cellC uint8
	cellD float32
)

// Several goroutines read files of the same and of different struct types, first
// met there; each gets its own records. (Run under the race detector.)
func TestConcurrent(t *testing.T) {
	kinds := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(probe{}), reflect.TypeOf(cellA(0)), reflect.TypeOf(cellB("")), reflect.TypeOf(cellC(0)), reflect.TypeOf(cellD(0))}
	pbt.Check(t, 300, func(t *pbt.T) {
		nt := gen.Int(t.T, 1, 3, "types")
		type job struct {
			typ  reflect.Type
			hdr  []string
			rows [][]string
		}
		var types []job
		for i := 0; i < nt; i++ {
			var ks []reflect.Type
			for j, n := 0, gen.Int(t.T, 1, 4, "cols"); j < n; j++ {
				ks = append(ks, kinds[gen.Int(t.T, 0, len(kinds)-1, "kind")])
			}
			typ, hdr := freshType(ks)
			types = append(types, job{typ: typ, hdr: hdr})
		}
		var jobs []job
		ng := gen.Int(t.T, 2, 6, "goroutines")
		for g := 0; g < ng; g++ {
			j := types[gen.Int(t.T, 0, nt-1, "of")]
			for i, n := 0, gen.Int(t.T, 1, 4, "records"); i < n; i++ {
				var row []string
				for range j.hdr {
					row = append(row, strconv.Itoa(gen.Int(t.T, 0, 1, "cell")))
				}
				j.rows = append(j.rows, row)
			}
			jobs = append(jobs, j)
		}
		t.Case(ng >= 2, fmt.Sprintf("%d goroutines, %d types: %v", ng, nt, jobs))
		errs := make([]string, ng)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range jobs {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[g] = fmt.Sprintf("panic: %v", r)
					}
				}()
				j := jobs[g]
				<-start
				errs[g] = func() string {
					path := fmt.Sprintf("g%d.csv", g)
					f := &failing{rows: append([][]string{j.hdr}, j.rows...), at: -1}
					fp, err := csvcoder.NewFileParser(f, path, reflect.New(j.typ).Interface())
					if err != nil {
						return err.Error()
					}
					n := 0
					err = fp.ReadAll(func(v interface{}) error {
						e := reflect.ValueOf(v).Elem()
						for i := range j.hdr {
							got := fmt.Sprint(e.Field(i).Interface())
							want := j.rows[n][i]
							switch x := e.Field(i).Interface().(type) {
							case bool:
								want = strconv.FormatBool(want == "1")
							case probe:
								got = x.Text
								if int(x.Num) != n+1 || x.Path != path {
									return fmt.Errorf("record %d of %s was decoded as row %d of %s", n, path, x.Num, x.Path)
								}
							}
							if got != want {
								return fmt.Errorf("record %d field %d is %q, want %q", n, i, got, want)
							}
						}
						n++
						return nil
					})
					if err != nil {
						return err.Error()
					}
					if n != len(j.rows) {
						return fmt.Sprintf("%d records, want %d", n, len(j.rows))
					}
					// An unregistered type is refused, listing the others, while they register.
					if err := csvcoder.ParseRow(csvcoder.NewRow(nil, csvcoder.NewHeader(nil), 0, ""), &struct{ Unregistered int }{}); err == nil {
						return "ParseRow accepted an unregistered type"
					}
					return ""
				}()
			}(g)
		}
		close(start)
		wg.Wait()
		for g, e := range errs {
			if e != "" {
				t.Fatalf("goroutine %d: %s", g, e)
			}
		}
	})
}
