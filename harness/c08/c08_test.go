package c08

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/google/xtoproto/csvcoder"
	"github.com/google/xtoproto/textcoder"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "struct types assembled by reflection (basic, named, text-method and registered field types; csv, csv-skip and absent tags; unexported fields) x headers (permuted, with extra, duplicate and missing columns) x rows (good, bad and missing cells); non-trivial: at least two parsed fields and a header that differs from the field order or a fault; distinct by type, header and row")
}

type namedInt int32
type namedStr string
type shout string

func (s *shout) UnmarshalText(b []byte) error {
	if strings.Contains(string(b), "!") {
		return fmt.Errorf("shouting %q", b)
	}
	*s = shout(string(b) + "!")
	return nil
}

type point struct{ X, Y int }

func init() {
	textcoder.MustRegister(reflect.TypeOf(point{}),
		func(p point) (string, error) { return fmt.Sprintf("%d;%d", p.X, p.Y), nil },
		func(s string, p *point) error {
			a := strings.Split(s, ";")
			if len(a) != 2 {
				return fmt.Errorf("bad point %q", s)
			}
			x, err := strconv.Atoi(a[0])
			if err != nil {
				return err
			}
			y, err := strconv.Atoi(a[1])
			if err != nil {
				return err
			}
			*p = point{x, y}
			return nil
		})
}

// Types of the same names as others, declared in functions.
func twinInt() reflect.Type { type namedInt string; return reflect.TypeOf(namedInt("")) }
func twinStr() reflect.Type { type namedStr int16; return reflect.TypeOf(namedStr(0)) }

var twins = map[reflect.Type]reflect.Type{
	reflect.TypeOf(namedInt(0)): twinInt(), twinInt(): reflect.TypeOf(namedInt(0)),
	reflect.TypeOf(namedStr("")): twinStr(), twinStr(): reflect.TypeOf(namedStr("")),
}

func rowType1() interface{} {
	type row struct {
		A int
		B int
	}
	return &row{}
}

func rowType2() interface{} {
	type row struct {
		B int
		A int
	}
	return &row{}
}

func rowType3() interface{} {
	type row struct {
		A int `csv:"B"`
		B int `csv:"C"`
	}
	return &row{}
}

func rowType4() interface{} {
	type row struct {
		A int `csv-skip:""`
		B int `csv:"A"`
	}
	return &row{}
}

// Struct types of the same name are different types all the same.
func TestSameName(t *testing.T) {
	types := []struct {
		make func() interface{}
		cols []string
		want []int // the field that the column goes to
	}{
		{rowType1, []string{"A", "B"}, []int{0, 1}}, {rowType2, []string{"B", "A"}, []int{0, 1}},
		{rowType3, []string{"B", "C"}, []int{0, 1}}, {rowType4, []string{"A"}, []int{1}},
	}
	pbt.Check(t, 300, func(t *pbt.T) {
		k := types[gen.Int(t.T, 0, len(types)-1, "type")]
		hdr := []string{"A", "B", "C"}
		for i := len(hdr) - 1; i > 0; i-- {
			j := gen.Int(t.T, 0, i, "perm")
			hdr[i], hdr[j] = hdr[j], hdr[i]
		}
		var row []string
		want := []int{0, 0}
		for _, h := range hdr {
			v := gen.Int(t.T, 1, 99, "v")
			row = append(row, strconv.Itoa(v))
			for i, c := range k.cols {
				if c == h {
					want[k.want[i]] = v
				}
			}
		}
		dst := k.make()
		file := gen.Bool(t.T, "file")
		t.Case(true, fmt.Sprintf("%v %q %q", k.cols, hdr, row))
		if file {
			p, err := csvcoder.NewFileParser(&rows{[][]string{hdr, row}, 0}, "", k.make())
			if err != nil {
				t.Fatalf("NewFileParser for columns %q: %v", k.cols, err)
			}
			if dst, err = p.Read(); err != nil {
				t.Fatalf("columns %q: %v", k.cols, err)
			}
			if reflect.TypeOf(dst) != reflect.TypeOf(k.make()) {
				t.Fatalf("columns %q: the record has another type", k.cols)
			}
		} else {
			csvcoder.RegisterRowStruct(reflect.TypeOf(dst))
			if err := csvcoder.ParseRow(csvcoder.NewRow(row, csvcoder.NewHeader(hdr), 1, ""), dst); err != nil {
				t.Fatalf("columns %q: %v", k.cols, err)
			}
		}
		if v := reflect.ValueOf(dst).Elem(); int(v.Field(0).Int()) != want[0] || int(v.Field(1).Int()) != want[1] {
			t.Fatalf("type with columns %q, header %q, row %q: %v, want %v", k.cols, hdr, row, dst, want)
		}
	})
}

// Embedded fields of named basic types are fields like others.
type (
	Embed  int32
	EmbedS string
	lower  string
	embA   struct {
		Embed
		X int `csv:"x"`
	}
	embB struct {
		EmbedS `csv:"Embed"`
		Embed  `csv:"x"`
	}
	embC struct {
		lower
		EmbedS `csv-skip:""`
		Embed
		Shout
	}
	Shout = shout2
)

type shout2 string

func (s *shout2) UnmarshalText(b []byte) error { *s = shout2("!" + string(b)); return nil }

func TestEmbedded(t *testing.T) {
	pbt.Check(t, 500, func(t *pbt.T) {
		hdr := []string{"Embed", "x", "EmbedS", "Shout", "shout2", "lower"}
		for i := len(hdr) - 1; i > 0; i-- {
			j := gen.Int(t.T, 0, i, "perm")
			hdr[i], hdr[j] = hdr[j], hdr[i]
		}
		cell := map[string]string{}
		var row []string
		n := map[string]int{}
		for _, h := range hdr {
			n[h] = gen.Int(t.T, 1, 99, "v")
			cell[h] = strconv.Itoa(n[h])
			row = append(row, cell[h])
		}
		k := gen.Int(t.T, 0, 2, "type")
		t.Case(true, fmt.Sprint(k, hdr, row))
		got := []interface{}{&embA{}, &embB{}, &embC{}}[k]
		want := []interface{}{&embA{Embed(n["Embed"]), n["x"]}, &embB{EmbedS(cell["Embed"]), Embed(n["x"])},
			&embC{Embed: Embed(n["Embed"]), Shout: shout2("!" + cell["Shout"])}}[k]
		csvcoder.RegisterRowStruct(reflect.TypeOf(got))
		if err := csvcoder.ParseRow(csvcoder.NewRow(row, csvcoder.NewHeader(hdr), 1, ""), got); err != nil {
			t.Fatalf("%T: %v", got, err)
		}
		if !reflect.DeepEqual(got, want) {
			t.Fatalf("%T from %q %q: %v, want %v", got, hdr, row, got, want)
		}
	})
}

var fieldTypes = []reflect.Type{
	twinInt(), twinStr(),
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(false),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(namedInt(0)), reflect.TypeOf(namedStr("")), reflect.TypeOf(shout("")), reflect.TypeOf(point{}),
}

// decode is the reference codec of a field type.
func decode(typ reflect.Type, s string) (interface{}, bool) {
	switch typ {
	case reflect.TypeOf(shout("")):
		if strings.Contains(s, "!") {
			return nil, false
		}
		return shout(s + "!"), true
	case reflect.TypeOf(point{}):
		a := strings.Split(s, ";")
		if len(a) != 2 {
			return nil, false
		}
		x, err := strconv.Atoi(a[0])
		y, err2 := strconv.Atoi(a[1])
		return point{x, y}, err == nil && err2 == nil
	}
	v, ok := ref.Decode(typ, s)
	return v.Interface(), ok
}

// drawCell draws a cell for a column of the type; one in oneBad is likely bad.
func drawCell(t *pbt.T, typ reflect.Type, oneBad int) string {
	bad := gen.OneIn(t.T, oneBad, "badcell")
	switch {
	case typ == reflect.TypeOf(shout("")):
		s := gen.Line(t.T, 5, "cell")
		if !bad {
			s = strings.ReplaceAll(s, "!", "?")
		}
		return s
	case typ == reflect.TypeOf(point{}):
		if bad {
			return gen.Pick(t.T, "cell", "", "1", "1;2;3", "a;b", ";")
		}
		return fmt.Sprintf("%d;%d", gen.Int(t.T, -5, 5, "x"), gen.Int(t.T, -5, 5, "y"))
	}
	switch typ.Kind() {
	case reflect.String:
		return gen.Line(t.T, 6, "cell")
	case reflect.Bool:
		if bad {
			return gen.Pick(t.T, "cell", "", "t", "2", "oui")
		}
		return gen.Pick(t.T, "cell", "true", "FALSE", "On", "off", "yes", "No", "0", "1")
	case reflect.Float32, reflect.Float64:
		if bad {
			return gen.FloatText(t.T, "cell")
		}
		return strconv.FormatFloat(gen.Float64(t.T, "cell", true), 'g', -1, typ.Bits())
	}
	if bad {
		return gen.IntText(t.T, "cell")
	}
	return strconv.Itoa(gen.Int(t.T, 0, 127, "cell"))
}

// same compares decoded values, letting NaN equal itself.
func same(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	if va.Kind() == reflect.Struct {
		return a == b
	}
	return ref.Same(va, vb)
}

type field struct {
	name, col  string
	typ        reflect.Type
	skip       bool
	unexported bool
}

func colName(t *pbt.T, label string) string {
	if gen.OneIn(t.T, 3, label+".odd") {
		return gen.Line(t.T, 6, label)
	}
	return gen.Pick(t.T, label, "a", "b", "c", "d", "Name", "name", "F0", "F1", "col 1", "", "é")
}

func drawStruct(t *pbt.T) ([]*field, reflect.Type) {
	var fs []*field
	var sf []reflect.StructField
	n := gen.Int(t.T, 0, 6, "fields")
	if gen.OneIn(t.T, 25, "wide") {
		n = gen.Int(t.T, 12, 70, "nfields")
	}
	for i := 0; i < n; i++ {
		f := &field{name: fmt.Sprintf("F%d", i), typ: fieldTypes[gen.Int(t.T, 0, len(fieldTypes)-1, "type")]}
		tag := ""
		f.col = f.name
		if !gen.OneIn(t.T, 4, "notag") {
			f.col = colName(t, "col")
			if i > 6 {
				f.col = fmt.Sprint("w", i)
			}
			tag = "csv:" + strconv.Quote(f.col)
		}
		s := reflect.StructField{Name: f.name, Type: f.typ}
		switch gen.Int(t.T, 0, 9, "special") {
		case 0:
			f.skip = true
			tag += ` csv-skip:"` + gen.Pick(t.T, "skipval", "", "true", "false") + `"`
			if gen.Bool(t.T, "opaque") {
				s.Type = reflect.TypeOf(map[string]int{}) // no codec: fine, since skipped
				f.typ = s.Type
			}
		case 1:
			f.unexported = true
			f.name = fmt.Sprintf("f%d", i)
			s.Name, s.PkgPath = f.name, "verif"
		}
		s.Tag = reflect.StructTag(strings.TrimSpace(tag))
		if got, ok := s.Tag.Lookup("csv"); ok && got != f.col {
			t.Fatalf("HARNESS: tag %q reads as %q", s.Tag, got)
		}
		fs = append(fs, f)
		sf = append(sf, s)
	}
	return fs, reflect.StructOf(sf)
}

func TestRows(t *testing.T) {
	pbt.Check(t, 6000, func(t *pbt.T) {
		fs, st := drawStruct(t)
		pt := reflect.PtrTo(st)
		if gen.OneIn(t.T, 4, "twin") {
			// First, a struct type that looks the same, of types with the same names.
			var sf []reflect.StructField
			for i := 0; i < st.NumField(); i++ {
				f := st.Field(i)
				if twin := twins[f.Type]; twin != nil {
					f.Type = twin
				}
				sf = append(sf, reflect.StructField{Name: f.Name, PkgPath: f.PkgPath, Type: f.Type, Tag: f.Tag})
			}
			tt := reflect.StructOf(sf)
			if err := csvcoder.SafeRegisterRowStruct(reflect.PtrTo(tt)); err != nil {
				t.Fatalf("registering %v: %v", tt, err)
			}
		}
		if err := csvcoder.SafeRegisterRowStruct(pt); err != nil {
			t.Fatalf("registering %v: %v", st, err)
		}
		var need []*field
		for _, f := range fs {
			if !f.skip && !f.unexported {
				need = append(need, f)
			}
		}
		// Header: the needed columns, permuted, some dropped, some extra.
		type column struct {
			name string
			cell string
		}
		var cols []column
		seen := map[string]bool{}
		dropped := false
		rare := 12 // how rare the faults of a single column are
		if len(need) > 10 {
			rare = 4 * len(need)
		}
		for _, f := range need {
			if seen[f.col] && !gen.OneIn(t.T, 5, "dup") {
				continue
			}
			seen[f.col] = true
			if gen.OneIn(t.T, rare, "drop") {
				dropped = true
				continue
			}
			cols = append(cols, column{f.col, drawCell(t, f.typ, rare)})
		}
		for i, n := 0, gen.Int(t.T, 0, 3, "extra"); i < n; i++ {
			cols = append(cols, column{colName(t, "extracol"), gen.Line(t.T, 4, "extracell")})
		}
		if gen.OneIn(t.T, 25, "manyextra") {
			for i, n := 0, gen.Int(t.T, 60, 300, "nextra"); i < n; i++ {
				cols = append(cols, column{fmt.Sprint("extra", i/2), ""})
			}
		}
		// Fisher-Yates by generated choices.
		moved := false
		for i := len(cols) - 1; i > 0; i-- {
			j := gen.Int(t.T, 0, i, "perm")
			moved = moved || i != j
			cols[i], cols[j] = cols[j], cols[i]
		}
		var hdr, row []string
		for _, c := range cols {
			hdr, row = append(hdr, c.name), append(row, c.cell)
		}
		short := false
		if gen.OneIn(t.T, 10, "short") && len(row) > 0 {
			short = true
			row = row[:gen.Int(t.T, 0, len(row)-1, "len")]
		}
		if gen.OneIn(t.T, 10, "long") {
			row = append(row, "surplus")
		}
		t.Case(len(need) >= 2 && (moved || dropped || short), fmt.Sprintf("%v\nheader %q\nrow %q", st, hdr, row))
		// The reference: last column of a name wins.
		want := map[string]interface{}{}
		fault := ""
		var missing []string
		for _, f := range need {
			idx := -1
			for i, h := range hdr {
				if h == f.col {
					idx = i
				}
			}
			if idx < 0 {
				if fault == "" {
					fault = "missing column"
				}
				missing = append(missing, f.col)
				continue
			}
			if idx >= len(row) {
				if fault == "" {
					fault = "missing cell"
				}
				continue
			}
			v, ok := decode(f.typ, row[idx])
			if !ok {
				if fault == "" {
					fault = "bad cell"
				}
				continue
			}
			want[f.name] = v
		}
		num, path := csvcoder.RowNumber(gen.Int(t.T, -1, 50, "num")), gen.Pick(t.T, "path", "", "dir/in.csv", "x")
		r := csvcoder.NewRow(row, csvcoder.NewHeader(hdr), num, path)
		// The destination starts with other values, which only parsed fields lose.
		dst := reflect.New(st)
		for i, f := range fs {
			if !f.unexported && f.typ.Kind() == reflect.String {
				dst.Elem().Field(i).SetString("old")
			}
		}
		err := csvcoder.ParseRow(r, dst.Interface())
		if (err != nil) != (fault != "") {
			t.Fatalf("ParseRow: %v; want fault %q", err, fault)
		}
		t.Class("fault=" + fault)
		if err != nil {
			pos := "<unknown row number>"
			if num >= 0 {
				pos = strconv.Itoa(int(num) + 1)
			}
			if path != "" {
				pos = path + ":" + pos
			}
			if r.PositionString() != pos || !strings.HasPrefix(err.Error(), pos+": ") {
				t.Fatalf("error %q does not begin with the position %q", err, pos)
			}
			if fault == "missing column" {
				named := false
				for _, m := range missing {
					named = named || strings.Contains(err.Error(), strconv.Quote(m))
				}
				if !named && len(missing) == len(need) {
					t.Fatalf("error %q names none of the missing columns %q", err, missing)
				}
			}
			return
		}
		for i, f := range fs {
			if f.unexported {
				if !dst.Elem().Field(i).IsZero() {
					t.Fatalf("unexported field %s was set", f.name)
				}
				continue
			}
			got := dst.Elem().Field(i).Interface()
			if f.skip {
				if f.typ.Kind() == reflect.String && dst.Elem().Field(i).String() != "old" || f.typ.Kind() != reflect.String && !dst.Elem().Field(i).IsZero() {
					t.Fatalf("skipped field %s was set to %v", f.name, got)
				}
				continue
			}
			if !same(got, want[f.name]) {
				t.Fatalf("field %s (column %q) is %v, want %v", f.name, f.col, got, want[f.name])
			}
		}
	})
}

// A file missing required columns is refused with an error naming each.
func TestHeaders(t *testing.T) {
	pbt.Check(t, 3000, func(t *pbt.T) {
		fs, st := drawStruct(t)
		var hdr []string
		missing := map[string]bool{}
		have := map[string]bool{}
		for _, f := range fs {
			if f.skip || f.unexported {
				continue
			}
			if gen.OneIn(t.T, 4, "drop") {
				missing[f.col] = true
			} else {
				hdr = append(hdr, f.col)
				have[f.col] = true
			}
		}
		hdr = append(hdr, "zz-extra")
		have["zz-extra"] = true
		for m := range missing {
			if have[m] {
				delete(missing, m)
			}
		}
		t.Case(len(missing) > 0, fmt.Sprintf("%v header %q", st, hdr))
		p, err := csvcoder.NewFileParser(&rows{[][]string{hdr}, 0}, "in.csv", reflect.New(st).Interface())
		if (err != nil) != (len(missing) > 0) {
			t.Fatalf("NewFileParser: %v; missing %v", err, missing)
		}
		if err == nil && p == nil {
			t.Fatalf("no parser and no error")
		}
		for m := range missing {
			if !strings.Contains(err.Error(), strconv.Quote(m)) {
				t.Fatalf("error %q does not name the missing column %q", err, m)
			}
		}
		for h := range have {
			q := strconv.Quote(h)
			inside := false // a missing name, quoted, may itself contain this one
			for m := range missing {
				inside = inside || strings.Contains(strconv.Quote(m), q)
			}
			if err != nil && len(q) > 2 && !inside && strings.Contains(err.Error(), q) {
				t.Fatalf("error %q names column %q, which is there", err, h)
			}
		}
	})
}

type rows struct {
	rs [][]string
	i  int
}

func (r *rows) Read() ([]string, error) {
	if r.i >= len(r.rs) {
		return nil, fmt.Errorf("read past the end")
	}
	r.i++
	return r.rs[r.i-1], nil
}

// Header look-ups against a scan of the names.
func TestHeaderLookup(t *testing.T) {
	pbt.Check(t, 3000, func(t *pbt.T) {
		var names []string
		for i, n := 0, gen.Int(t.T, 0, 8, "n"); i < n; i++ {
			names = append(names, colName(t, "name"))
		}
		if gen.OneIn(t.T, 20, "many") {
			for i, n := 0, gen.Int(t.T, 60, 400, "nmany"); i < n; i++ {
				names = append(names, fmt.Sprint("m", gen.Int(t.T, 0, 300, "m")))
			}
			for i, n := 0, gen.Int(t.T, 0, 4, "ntail"); i < n; i++ {
				names = append(names, colName(t, "tail"))
			}
		}
		h := csvcoder.NewHeader(append([]string{}, names...))
		q := colName(t, "query")
		if len(names) > 0 && gen.Bool(t.T, "known") {
			q = names[gen.Int(t.T, 0, len(names)-1, "which")]
		}
		t.Case(len(names) > 2, fmt.Sprintf("%q in %q", q, names))
		want := -1
		for i, n := range names {
			if n == q {
				want = i
			}
		}
		got := h.ColumnIndex(q)
		if got.IsValid() != (want >= 0) || want >= 0 && got.Offset() != want || want < 0 && got != csvcoder.InvalidColumn {
			t.Fatalf("ColumnIndex(%q) in %q = %v, want %d", q, names, got, want)
		}
		if fmt.Sprint(h.ColumnNames()) != fmt.Sprint(names) {
			t.Fatalf("ColumnNames = %q, want %q", h.ColumnNames(), names)
		}
	})
}

// What cannot be registered: not a pointer to a struct, or a field without a codec.
func TestRegistration(t *testing.T) {
	pbt.Check(t, 1500, func(t *pbt.T) {
		fs, st := drawStruct(t)
		var sf []reflect.StructField
		for i := 0; i < st.NumField(); i++ {
			sf = append(sf, st.Field(i))
		}
		bad := reflect.StructField{Name: "Z", Type: gen.Pick(t.T, "badtype", reflect.TypeOf([]int{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{ Q int }{}), reflect.TypeOf(complex(1, 1)), reflect.TypeOf(uintptr(0)), reflect.TypeOf((*int)(nil)), reflect.TypeOf(make(chan int)))}
		if gen.Bool(t.T, "tagged") {
			bad.Tag = `csv:"z"`
		}
		at := gen.Int(t.T, 0, len(sf), "at")
		sf2 := append(append(append([]reflect.StructField{}, sf[:at]...), bad), sf[at:]...)
		for i := range sf2 {
			sf2[i].Offset, sf2[i].Index = 0, nil
		}
		bt := reflect.StructOf(sf2)
		t.Case(len(fs) > 1, fmt.Sprint(bt))
		if err := csvcoder.SafeRegisterRowStruct(reflect.PtrTo(bt)); err == nil {
			t.Fatalf("registered %v, which has a field without a codec", bt)
		}
		dst := reflect.New(bt).Interface()
		if err := csvcoder.ParseRow(csvcoder.NewRow(nil, csvcoder.NewHeader(nil), 0, ""), dst); err == nil {
			t.Fatalf("parsed a row into %v, which is not registered", bt)
		}
		func() {
			defer func() {
				if recover() == nil {
					t.Fatalf("RegisterRowStruct(%v) did not panic", bt)
				}
			}()
			csvcoder.RegisterRowStruct(reflect.PtrTo(bt))
		}()
		for _, x := range []reflect.Type{st, reflect.TypeOf(0), reflect.PtrTo(reflect.PtrTo(st)), reflect.TypeOf(new(int)), reflect.TypeOf("")} {
			if err := csvcoder.SafeRegisterRowStruct(x); err == nil {
				t.Fatalf("registered %v", x)
			}
		}
	})
}

// selfParser parses its own rows.
type selfParser struct {
	got  []string
	fail error
}

func (s *selfParser) ParseCSVRow(r *csvcoder.Row) error {
	s.got = r.Strings()
	return s.fail
}

// listedParser parses its own rows, and could be parsed field by field.
type listedParser struct {
	A     int `csv:"a"`
	B     string
	calls int
	fail  error
}

func (s *listedParser) ParseCSVRow(r *csvcoder.Row) error {
	s.calls++
	s.B = strings.Join(r.Strings(), "+")
	return s.fail
}

func init() { csvcoder.RegisterRowStruct(reflect.TypeOf(&listedParser{})) }

// A type with its own parser is parsed by it, registered or not.
func TestListedSelfParsing(t *testing.T) {
	pbt.Check(t, 400, func(t *pbt.T) {
		p := &listedParser{}
		if gen.Bool(t.T, "fail") {
			p.fail = fmt.Errorf("refused")
		}
		hdr := gen.Pick(t.T, "header", []string{"a", "B"}, []string{"x"}, nil)
		cells := []string{gen.Pick(t.T, "a", "1", "x"), gen.Line(t.T, 4, "B")}
		num := csvcoder.RowNumber(gen.Int(t.T, 0, 9, "num"))
		t.Case(true, fmt.Sprintf("%q %q fail=%v", hdr, cells, p.fail != nil))
		err := csvcoder.ParseRow(csvcoder.NewRow(cells, csvcoder.NewHeader(hdr), num, "p.csv"), p)
		if p.calls != 1 || (err != nil) != (p.fail != nil) || p.A != 0 || p.B != strings.Join(cells, "+") {
			t.Fatalf("ParseRow: %v, %+v", err, *p)
		}
		if err != nil && (!strings.HasPrefix(err.Error(), fmt.Sprintf("p.csv:%d: ", int(num)+1)) || !strings.Contains(err.Error(), "refused")) {
			t.Fatalf("error %q", err)
		}
	})
}

func TestSelfParsing(t *testing.T) {
	pbt.Check(t, 800, func(t *pbt.T) {
		var cells []string
		for i, n := 0, gen.Int(t.T, 0, 4, "n"); i < n; i++ {
			cells = append(cells, gen.Text(t.T, 4, "cell"))
		}
		p := &selfParser{}
		if gen.Bool(t.T, "fail") {
			p.fail = fmt.Errorf("refused")
		}
		num := csvcoder.RowNumber(gen.Int(t.T, 0, 9, "num"))
		t.Case(len(cells) > 1, fmt.Sprintf("%q fail=%v", cells, p.fail != nil))
		err := csvcoder.ParseRow(csvcoder.NewRow(cells, csvcoder.NewHeader(nil), num, "p.csv"), p)
		if (err != nil) != (p.fail != nil) || fmt.Sprint(p.got) != fmt.Sprint(cells) {
			t.Fatalf("ParseRow: %v, got %q", err, p.got)
		}
		if err != nil && (!strings.HasPrefix(err.Error(), fmt.Sprintf("p.csv:%d: ", int(num)+1)) || !strings.Contains(err.Error(), "refused")) {
			t.Fatalf("error %q", err)
		}
	})
}

// ParseCell agrees with the registered codec.
func TestCells(t *testing.T) {
	pbt.Check(t, 5000, func(t *pbt.T) {
		typ := fieldTypes[gen.Int(t.T, 0, len(fieldTypes)-1, "type")]
		s := drawCell(t, typ, 12)
		t.Case(len(s) > 1, fmt.Sprintf("%v %q", typ, s))
		row := csvcoder.NewRow([]string{s}, csvcoder.NewHeader([]string{"a"}), 1, "f")
		ctx := csvcoder.NewCellContext(row)
		if ctx.Row() != row {
			t.Fatalf("cell context has another row")
		}
		dst := reflect.New(typ)
		err := csvcoder.ParseCell(ctx, s, dst.Interface())
		want, ok := decode(typ, s)
		if (err == nil) != ok || ok && !same(dst.Elem().Interface(), want) {
			t.Fatalf("ParseCell(%q) as %v = %v, %v; want %v, %v", s, typ, dst.Elem(), err, want, ok)
		}
		if err := csvcoder.ParseCell(ctx, s, &struct{ A int }{}); err == nil {
			t.Fatalf("parsed a cell into a type without codec")
		}
	})
}

type (
	late0 int
	late1 string
	late2 float64
	late3 bool
	late4 uint8
	late5 int64
	late6 string
	late7 struct{ A int }
)

// A codec registered after a type was first used as a cell, or as a field of a row
// type, is the one that later cells and later row types are read with.
func TestLateCodec(t *testing.T) {
	types := []reflect.Type{reflect.TypeOf(late0(0)), reflect.TypeOf(late1("")), reflect.TypeOf(late2(0)), reflect.TypeOf(late3(false)), reflect.TypeOf(late4(0)), reflect.TypeOf(late5(0)), reflect.TypeOf(late6("")), reflect.TypeOf(late7{})}
	// Each type is good for one such history in a process, so there are few cases.
	next := 0
	pbt.Check(t, len(types), func(t *pbt.T) {
		if next >= len(types) {
			return
		}
		typ := types[next]
		first := gen.Int(t.T, 0, 3, "firstuse")
		again := gen.Bool(t.T, "again")
		next++
		t.Case(true, fmt.Sprintf("%v first used as %d, registered again %v", typ, first, again))
		ctx := csvcoder.NewCellContext(csvcoder.NewRow(nil, csvcoder.NewHeader(nil), 1, ""))
		row := func(id int) reflect.Type {
			return reflect.StructOf([]reflect.StructField{{Name: "V", Type: typ, Tag: reflect.StructTag(fmt.Sprintf(`csv:"v" id:"%d"`, id))}})
		}
		plain := typ.Kind() != reflect.Struct
		if first&1 != 0 {
			if err := csvcoder.ParseCell(ctx, "1", reflect.New(typ).Interface()); (err == nil) != plain {
				t.Fatalf("ParseCell to %v before it is registered: %v", typ, err)
			}
		}
		if first&2 != 0 {
			if err := csvcoder.SafeRegisterRowStruct(reflect.PtrTo(row(1))); (err == nil) != plain {
				t.Fatalf("registering a row of %v before it is registered: %v", typ, err)
			}
		}
		for r := 0; r < 2; r++ {
			if r == 1 && !again {
				break
			}
			// A decoder that yields the zero value and notes what it was given.
			var given []string
			dec := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{reflect.TypeOf(""), reflect.PtrTo(typ)}, []reflect.Type{reflect.TypeOf((*error)(nil)).Elem()}, false), func(a []reflect.Value) []reflect.Value {
				given = append(given, a[0].String())
				return []reflect.Value{reflect.Zero(reflect.TypeOf((*error)(nil)).Elem())}
			})
			enc := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{typ}, []reflect.Type{reflect.TypeOf(""), reflect.TypeOf((*error)(nil)).Elem()}, false), func(a []reflect.Value) []reflect.Value {
				return []reflect.Value{reflect.ValueOf(""), reflect.Zero(reflect.TypeOf((*error)(nil)).Elem())}
			})
			if err := textcoder.Register(typ, enc.Interface(), dec.Interface()); err != nil {
				t.Fatalf("Register(%v): %v", typ, err)
			}
			if err := csvcoder.ParseCell(ctx, "no number", reflect.New(typ).Interface()); err != nil || fmt.Sprint(given) != "[no number]" {
				t.Fatalf("ParseCell after registering %v: %v; the codec was given %q", typ, err, given)
			}
			st := row(2 + r)
			if err := csvcoder.SafeRegisterRowStruct(reflect.PtrTo(st)); err != nil {
				t.Fatalf("registering a row of %v: %v", typ, err)
			}
			given = nil
			if err := csvcoder.ParseRow(csvcoder.NewRow([]string{"nor this"}, csvcoder.NewHeader([]string{"v"}), 1, ""), reflect.New(st).Interface()); err != nil || fmt.Sprint(given) != "[nor this]" {
				t.Fatalf("ParseRow after registering %v: %v; the codec was given %q", typ, err, given)
			}
		}
	})
}
