// Package tab generates tables of text cells (as CSV files hold them) and holds
// the reference for what record inference should make of them.
package tab

import (
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/google/xtoproto/verifharness/gen"
)

// Layouts are the layouts inference supports, as its package lists them.
var Layouts = []string{
	"2006-01-02 15:04:05", "2006-01-02 03:04:05 PM", "1/2/2006 3:04:05 PM",
	time.ANSIC, time.UnixDate, time.RubyDate, time.RFC822, time.RFC822Z, time.RFC850, time.RFC1123, time.RFC1123Z,
	time.RFC3339, time.RFC3339Nano, time.Kitchen, time.Stamp, time.StampMilli, time.StampMicro, time.StampNano,
	"2006-1-2", "2006/1/2", "20060102",
}

// Dated are the layouts that have a year.
var Dated = []string{
	"2006-01-02 15:04:05", "2006-01-02 03:04:05 PM", "1/2/2006 3:04:05 PM",
	time.ANSIC, time.UnixDate, time.RubyDate, time.RFC822, time.RFC822Z, time.RFC850, time.RFC1123, time.RFC1123Z,
	time.RFC3339, time.RFC3339Nano, "2006-1-2", "2006/1/2", "20060102",
}

// Parse reads a time text; a nil location means none is configured.
func Parse(layout, s string, loc *time.Location) (time.Time, bool) {
	var tm time.Time
	var err error
	if loc == nil {
		tm, err = time.ParseInLocation(layout, s, time.UTC)
	} else {
		tm, err = time.ParseInLocation(layout, s, loc)
	}
	if err != nil {
		return tm, false
	}
	y := tm.UTC().Year()
	return tm, y >= 1 && y <= 9999
}

var intRE = regexp.MustCompile(`^[+-]?[0-9]+$`)

// IsInt64 says whether s is a base-10 signed 64-bit integer.
func IsInt64(s string) bool {
	if !intRE.MatchString(s) {
		return false
	}
	v, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
	return ok && v.IsInt64()
}

// IsFloat32 says whether s is a floating-point text in the range of float32.
func IsFloat32(s string) bool {
	_, err := strconv.ParseFloat(s, 32)
	return err == nil
}

func all(vs []string, f func(string) bool) bool {
	for _, v := range vs {
		if !f(v) {
			return false
		}
	}
	return true
}

// LayoutFits says whether every value parses with the layout.
func LayoutFits(layout string, vs []string, loc *time.Location) bool {
	return all(vs, func(s string) bool { _, ok := Parse(layout, s, loc); return ok })
}

// Type is the proto type inference should choose for a column of values.
func Type(vs []string, loc *time.Location) string {
	for _, l := range Layouts {
		if LayoutFits(l, vs, loc) {
			return "google.protobuf.Timestamp"
		}
	}
	if all(vs, IsInt64) {
		return "int64"
	}
	if all(vs, IsFloat32) {
		return "float"
	}
	return "string"
}

// Kinds of columns.
const (
	KInt = iota
	KFloat
	KTime
	KText
	KMixed
	KNearInt
	KNearTime
	KDigits
	KNearFloat
	nKinds
)

// IntCell draws a text of a 64-bit integer.
func IntCell(t gen.D) string {
	s := strconv.FormatInt(gen.Int64(t, "int"), 10)
	if gen.OneIn(t, 6, "plus") && s[0] != '-' {
		s = "+" + s
	}
	if gen.OneIn(t, 8, "zero") {
		sg := ""
		if s[0] == '+' || s[0] == '-' {
			sg, s = s[:1], s[1:]
		}
		s = sg + "00" + s
	}
	return s
}

// FloatCell draws a text of a 32-bit floating-point number.
func FloatCell(t gen.D) string {
	for i := 0; i < 5; i++ {
		if s := gen.FloatText(t, "float"); IsFloat32(s) && !strings.ContainsAny(s, " ") {
			return s
		}
	}
	return "2.5"
}

// TimeCell draws a time text in the layout.
func TimeCell(t gen.D, layout string, loc *time.Location) string {
	if loc == nil {
		loc = time.UTC
	}
	lo, hi := 2, 9998
	if strings.Contains(layout, "06") && !strings.Contains(layout, "2006") {
		lo, hi = 1970, 2068 // two-digit years
	}
	tm := gen.WallTime(t, loc, lo, hi, "time")
	if strings.Contains(layout, "-0700") || strings.Contains(layout, "Z07:00") {
		tm = tm.In(gen.Zone(t, "zone"))
		if y := tm.Year(); y < lo || y > hi {
			tm = tm.UTC()
		}
	}
	s := tm.Format(layout)
	if gen.OneIn(t, 10, "frac") && strings.Contains(layout, ":05") {
		s = strings.Replace(s, tm.Format(":05"), tm.Format(":05")+gen.Pick(t, "fracdigits", ".5", ".123456789", ",25", ".000000001"), 1)
	}
	return s
}

// Column draws n values of a random kind.
func Column(t gen.D, n int, loc *time.Location) (kind int, vs []string) {
	kind = gen.Int(t, 0, nKinds-1, "kind")
	layout := gen.Pick(t, "layout", Layouts...)
	cell := func() string {
		switch kind {
		case KInt:
			return IntCell(t)
		case KFloat:
			return FloatCell(t)
		case KTime:
			return TimeCell(t, layout, loc)
		case KText:
			return gen.Text(t, 12, "text")
		case KNearInt:
			return gen.IntText(t, "near")
		case KNearTime:
			s := TimeCell(t, layout, loc)
			switch gen.Int(t, 0, 5, "mut") {
			case 0:
				s = TimeCell(t, gen.Pick(t, "layout2", Layouts...), loc)
			case 1:
				s += gen.Pick(t, "tail", " ", "x", "Z", "0")
			case 2:
				s = strings.Replace(s, "0", gen.Pick(t, "digit", "", "9", "00", "3"), 1)
			}
			return s
		case KNearFloat:
			if gen.OneIn(t, 6, "odd") {
				return gen.Pick(t, "oddfloat", "1e39", "-3.5e38", "3.4028235e38", "3.4028235677973366e+38", "3.4028235677973367e+38", "1e308", "1e309", "0x1p-2", "0x1p127", "0x1p128", "1_000.5", ".5", "5.", ".", "+Inf", "-inf", "infinity", "NaN", "nan", "1e", "1,5", "1.5 ", "1e-400", "0x1.8", "1.5f", "+", "1e+5", "1d5", "١.٥")
			}
			return FloatCell(t)
		case KDigits:
			return gen.Pick(t, "dig", "20210101", "20211231", "20210229", "20200229", "00000101", "00010101", "99991231", "2021010", "+20210101", "20211301", "19700101")
		}
		switch gen.Int(t, 0, 3, "mixed") {
		case 0:
			return IntCell(t)
		case 1:
			return FloatCell(t)
		case 2:
			return TimeCell(t, layout, loc)
		}
		return gen.Pick(t, "word", "", "n/a", "NaN", "x", " ", "0", "true", "1e5", "null")
	}
	if gen.OneIn(t, 2, "pool") {
		// Few distinct values, so that counts and ties matter.
		pool := make([]string, gen.Int(t, 1, 8, "poolsize"))
		for i := range pool {
			pool[i] = cell()
		}
		for i := 0; i < n; i++ {
			vs = append(vs, gen.Pick(t, "pooled", pool...))
		}
		return kind, vs
	}
	for i := 0; i < n; i++ {
		vs = append(vs, cell())
	}
	return kind, vs
}

// Header draws a column name; names may repeat and hold anything.
func Header(t gen.D) string {
	switch gen.Int(t, 0, 6, "hdr") {
	case 0, 1:
		return gen.Ident(t, "ident")
	case 2:
		return strings.ReplaceAll(gen.Ident(t, "words"), "_", gen.Pick(t, "sep", " ", "-", " (", ") ", "__", ".", "/"))
	case 3:
		return gen.Pick(t, "camel", "FirstName", "totalCost", "HTTPCode", "ID", "userID", "X", "aB", "A1", "Q4Total")
	case 4:
		return gen.Pick(t, "oddname", "", "1st", "2020", "%", "#", "_", "__a__", "a_1", "a1", "a 1", "é", "日本", "message", "string", "type", "a\"b", "a\\b", "a`b", "a\nb", "a\tb", "(", "()", "A", "a", "*/", "//")
	default:
		return gen.Text(t, 10, "name")
	}
}

// Location draws a configured zone, perhaps none.
func Location(t gen.D) *time.Location {
	switch gen.Int(t, 0, 3, "loc") {
	case 0:
		return nil
	case 1:
		return time.UTC
	}
	return gen.Zone(t, "zone")
}

// Table draws a header and rows: 1..maxCols columns and 1..maxRows data rows.
func Table(t gen.D, maxCols, maxRows int, loc *time.Location) [][]string {
	nc, nr := gen.Int(t, 1, maxCols, "cols"), gen.Int(t, 1, maxRows, "rows")
	rows := make([][]string, nr+1)
	for c := 0; c < nc; c++ {
		h := Header(t)
		if c == 0 && gen.OneIn(t, 12, "mark") {
			h = "\ufeff" + h // as some spreadsheets write it
		}
		rows[0] = append(rows[0], h)
		_, vs := Column(t, nr, loc)
		for i, v := range vs {
			rows[i+1] = append(rows[i+1], v)
		}
	}
	return rows
}

// Wide draws a table of many columns that share few names.
func Wide(t gen.D) [][]string {
	n := gen.Pick(t, "width", 90, 127, 129, 150, 260, 400)
	if gen.OneIn(t, 25, "widest") {
		n = 1300
	}
	names := []string{Header(t), Header(t), gen.Pick(t, "plain", "x", "value", "a b")}
	rows := [][]string{nil, nil, nil}
	// Now and then (nearly) all columns have one name.
	alike := gen.OneIn(t, 3, "alike")
	for i := 0; i < n; i++ {
		h := names[0]
		if !alike || gen.OneIn(t, 50, "unlike") {
			h = gen.Pick(t, "wideheader", append(names, "", strconv.Itoa(i), "c"+strconv.Itoa(i), "x_"+strconv.Itoa(i))...)
		}
		rows[0] = append(rows[0], h)
		for _, r := range []int{1, 2} {
			rows[r] = append(rows[r], gen.Pick(t, "widecell", "1", "2", "2", "2.5", "w", "2020-01-02"))
		}
	}
	return rows
}

// Stretch repeats the rows of a table until it has several hundred to several
// thousand, keeping its last row apart: it stays unique, anywhere in the table
// (often far from the start). With it, some columns become all distinct.
func Stretch(t gen.D, rows [][]string) [][]string {
	n := gen.Pick(t, "stretch", 300, 1001, 1100, 2050, 4097)
	if gen.OneIn(t, 25, "longest") {
		n = gen.Pick(t, "rows", 17000, 34000, 67000)
	}
	last := rows[len(rows)-1]
	base := rows[1 : len(rows)-1]
	if len(base) == 0 {
		base = rows[1:]
	}
	out := [][]string{rows[0]}
	for i := 0; i < n; i++ {
		out = append(out, append([]string{}, base[i%len(base)]...))
	}
	if gen.Bool(t, "distinct") {
		c := gen.Int(t, 0, len(last)-1, "distinctcol")
		for i, r := range out[1:] {
			r[c] = strconv.Itoa(i)
		}
	}
	at := gen.Pick(t, "at", n, n, n/2, n-1, 0)
	out = append(out, nil)
	copy(out[at+2:], out[at+1:])
	out[at+1] = last
	return out
}

// Long makes some texts of a table long: a column name or cells, all of them or one.
func Long(t gen.D, rows [][]string) [][]string {
	c := gen.Int(t, 0, len(rows[0])-1, "longcol")
	n := gen.Pick(t, "length", 40, 300, 1100, 5000, 70000)
	grow := func(s string) string {
		if s == "" {
			s = "x"
		}
		tail := gen.Pick(t, "longtail", "", "y", "9")
		if gen.Bool(t, "pad") {
			// A number or time stays one, perhaps.
			return s + strings.Repeat(gen.Pick(t, "padding", "0", " ", "."), n) + tail
		}
		return strings.Repeat(s, n/len(s)+1) + tail
	}
	out := make([][]string, len(rows))
	for i, r := range rows {
		out[i] = append([]string{}, r...)
	}
	switch gen.Int(t, 0, 3, "longwhat") {
	case 0:
		out[0][c] = grow(out[0][c])
	case 1:
		for _, r := range out[1:] {
			r[c] = grow(r[c])
		}
	case 2:
		i := gen.Int(t, 1, len(out)-1, "longrow")
		out[i][c] = grow(out[i][c])
	case 3:
		// Numbers of many digits keep their value.
		for _, r := range out[1:] {
			if IsFloat32(r[c]) && strings.Trim(r[c], "0123456789") == "" {
				r[c] = strings.Repeat("0", n) + r[c]
			} else if i := strings.IndexByte(r[c], '.'); i > 0 && IsFloat32(r[c]) && strings.Trim(r[c][i+1:], "0123456789") == "" {
				r[c] += strings.Repeat("0", n)
			}
		}
	}
	return out
}

// Values is column c without the header.
func Values(rows [][]string, c int) []string {
	var vs []string
	for _, r := range rows[1:] {
		vs = append(vs, r[c])
	}
	return vs
}
