package c12

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/google/xtoproto/csvtoprotoparse"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	dpb "google.golang.org/protobuf/types/known/durationpb"
	tspb "google.golang.org/protobuf/types/known/timestamppb"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "random cell texts (numbers around type limits and rounding midpoints, near-numbers, times formatted from a known instant, durations built from known parts); non-trivial: the text is not a plain small decimal integer, distinct by text and parameters")
}

var intRE = regexp.MustCompile(`^[+-]?[0-9]+$`)

// refInt is the reference: base-10 digits with an optional sign, in range.
func refInt(s string, bits uint) (int64, bool) {
	if !intRE.MatchString(s) {
		return 0, false
	}
	v, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
	if !ok {
		return 0, false
	}
	lim := new(big.Int).Lsh(big.NewInt(1), bits-1)
	if v.Cmp(lim) >= 0 || v.Cmp(new(big.Int).Neg(lim)) < 0 {
		return 0, false
	}
	return v.Int64(), true
}

func TestIntegers(t *testing.T) {
	pbt.Check(t, 12000, func(t *pbt.T) {
		s := gen.IntText(t.T, "s")
		t.Case(len(s) > 3, strconv.Quote(s))
		want, ok := refInt(s, 32)
		got, err := csvtoprotoparse.ParseInt32(s)
		if (err == nil) != ok || ok && int64(got) != want {
			t.Fatalf("ParseInt32(%q) = %v, %v; want %v, ok=%v", s, got, err, want, ok)
		}
		want, ok = refInt(s, 64)
		got64, err := csvtoprotoparse.ParseInt64(s)
		if (err == nil) != ok || ok && got64 != want {
			t.Fatalf("ParseInt64(%q) = %v, %v; want %v, ok=%v", s, got64, err, want, ok)
		}
		if ok {
			t.Class("in-range64")
		}
	})
}

func TestFloats(t *testing.T) {
	pbt.Check(t, 12000, func(t *pbt.T) {
		s := gen.FloatText(t.T, "s")
		t.Case(len(s) > 3, strconv.Quote(s))
		want, werr := strconv.ParseFloat(s, 32)
		got, err := csvtoprotoparse.ParseFloat(s)
		if (err == nil) != (werr == nil) || err == nil && math.Float32bits(got) != math.Float32bits(float32(want)) {
			t.Fatalf("ParseFloat(%q) = %v, %v; want %v, %v", s, got, err, float32(want), werr)
		}
		want, werr = strconv.ParseFloat(s, 64)
		got64, err := csvtoprotoparse.ParseDouble(s)
		if (err == nil) != (werr == nil) || err == nil && math.Float64bits(got64) != math.Float64bits(want) {
			t.Fatalf("ParseDouble(%q) = %v, %v; want %v, %v", s, got64, err, want, werr)
		}
		if werr == nil {
			t.Class("accepted64")
		}
	})
}

func TestStrings(t *testing.T) {
	pbt.Check(t, 2000, func(t *pbt.T) {
		s := gen.Text(t.T, 20, "s")
		if gen.OneIn(t.T, 6, "raw") {
			s += gen.Pick(t.T, "rawbytes", "\xff", "\xc3", "\xed\xa0\x80", "\x00", "\r", "\ufeff") + gen.Text(t.T, 4, "rest")
		}
		if gen.OneIn(t.T, 60, "long") {
			s = strings.Repeat(s+"x", gen.Pick(t.T, "repeats", 20, 300, 5000)) + s
		}
		t.Case(len(s) > 0, strconv.Quote(s))
		got, err := csvtoprotoparse.ParseString(s)
		if err != nil || got != s {
			t.Fatalf("ParseString(%q) = %q, %v", s, got, err)
		}
	})
}

var layouts = []string{
	"2006-01-02 15:04:05", "2006-01-02 03:04:05 PM", "1/2/2006 3:04:05 PM", time.ANSIC, time.RFC1123Z, time.RFC3339, time.RFC3339Nano,
	"2006-01-02T15:04:05.000000000", "02 Jan 2006 15:04:05 -0700", "20060102150405", "2006-01-02 15:04:05.999999999Z07:00:00",
}

func tsEqual(ts *tspb.Timestamp, tm time.Time) string {
	if ts == nil {
		return "nil timestamp without error"
	}
	if ts.Seconds != tm.Unix() || int(ts.Nanos) != tm.Nanosecond() {
		return fmt.Sprintf("got %d s %d ns, want %d s %d ns", ts.Seconds, ts.Nanos, tm.Unix(), tm.Nanosecond())
	}
	return ""
}

// zoneName is a name for loc: that of UTC may be left empty.
func zoneName(t *pbt.T, loc *time.Location) string {
	if loc == time.UTC && gen.Bool(t.T, "nozone") {
		return ""
	}
	return loc.String()
}

func TestTimestamps(t *testing.T) {
	pbt.Check(t, 12000, func(t *pbt.T) {
		layout := gen.Pick(t.T, "layout", layouts...)
		loc := gen.Zone(t.T, "zone")
		zone := zoneName(t, loc)
		tm := gen.WallTime(t.T, loc, 1, 9999, "tm")
		shift := gen.Int(t.T, -14*60, 14*60, "shift") * 60
		hasOffset := strings.Contains(layout, "07")
		shown := tm
		if hasOffset && gen.Bool(t.T, "otherzone") {
			// A text with its own offset: the named zone must not matter.
			shown = tm.In(time.FixedZone("", shift))
		}
		if y := shown.Year(); y < 1 || y > 9999 {
			shown = tm
		}
		if _, off := shown.Zone(); off%60 != 0 && hasOffset && !strings.Contains(layout, "07:00:00") {
			shown = tm.In(time.UTC) // the layout cannot show seconds of offset
		}
		s := shown.Format(layout)
		// What the text denotes, from the parts it shows.
		want := tm
		if !strings.Contains(layout, ".") {
			want = tm.Truncate(time.Second)
		}
		if want.Nanosecond() != 0 && !strings.Contains(layout, ".0") && !strings.Contains(layout, ".9") {
			want = want.Add(-time.Duration(want.Nanosecond()))
		}
		t.Case(loc != time.UTC, fmt.Sprintf("ParseTimestamp(%q, %q, %q)", s, layout, zone))
		if y := want.UTC().Year(); y < 1 || y > 9999 {
			if got, err := csvtoprotoparse.ParseTimestamp(s, layout, zone); err == nil {
				t.Fatalf("out of range instant %v accepted as %v", want.UTC(), got)
			}
			t.Class("out-of-range")
			return
		}
		got, err := csvtoprotoparse.ParseTimestamp(s, layout, zone)
		if err != nil {
			t.Fatalf("ParseTimestamp(%q, %q, %q): %v", s, layout, zone, err)
		}
		if d := tsEqual(got, want); d != "" {
			t.Fatalf("ParseTimestamp(%q, %q, %q): %s", s, layout, zone, d)
		}
		// A damaged text must not be accepted.
		bad := s + gen.Pick(t.T, "junk", "x", " 1", "Z ", "\n", "-")
		if _, err := csvtoprotoparse.ParseTimestamp(bad, layout, zone); err == nil {
			if _, lerr := time.ParseInLocation(layout, bad, loc); lerr != nil {
				t.Fatalf("ParseTimestamp(%q, %q, %q) accepted trailing junk", bad, layout, zone)
			}
		}
	})
}

// Names of zones are told apart as the zone database tells them, whatever names
// came before.
func TestZoneSpelling(t *testing.T) {
	pbt.Check(t, 800, func(t *pbt.T) {
		z := gen.Pick(t.T, "zone", gen.Zones...)
		w := []byte(z)
		switch gen.Int(t.T, 0, 4, "spelling") {
		case 0:
			w = []byte(strings.ToLower(z))
		case 1:
			w = []byte(strings.ToUpper(z))
		case 2:
			if len(w) > 0 {
				w = w[:len(w)-1]
			}
		case 3:
			w = append(w, gen.Pick(t.T, "tail", " ", "\x00", "/", "x")...)
		default:
			w = append([]byte(gen.Pick(t.T, "head", " ", "./", "x", "posix/")), w...)
		}
		names := []string{z, string(w)}
		if gen.Bool(t.T, "wrongfirst") {
			names[0], names[1] = names[1], names[0]
		}
		t.Case(true, fmt.Sprintf("%q", names))
		for _, n := range names {
			loc, lerr := time.LoadLocation(n)
			s := "2021-07-01 12:00:00"
			got, err := csvtoprotoparse.ParseTimestamp(s, "2006-01-02 15:04:05", n)
			if (err == nil) != (lerr == nil) {
				t.Fatalf("ParseTimestamp in zone %q (of %q): %v; the zone: %v", n, names, err, lerr)
			}
			if err == nil {
				if d := tsEqual(got, time.Date(2021, 7, 1, 12, 0, 0, 0, loc)); d != "" {
					t.Fatalf("ParseTimestamp in zone %q (of %q): %s", n, names, d)
				}
			}
		}
	})
}

func TestUnknownZone(t *testing.T) {
	pbt.Check(t, 500, func(t *pbt.T) {
		z := gen.Pick(t.T, "zone", "No/Such", "America/Nowhere", "utc2", "../etc/passwd", "Asia/", "PST8PDTX", "/etc/localtime")
		t.Case(true, z)
		if _, err := csvtoprotoparse.ParseTimestamp("2020-01-01", "2006-01-02", z); err == nil {
			t.Fatalf("zone %q accepted", z)
		}
		func() {
			defer func() {
				if recover() == nil {
					t.Fatalf("MustLoadLocation(%q) did not panic", z)
				}
			}()
			csvtoprotoparse.MustLoadLocation(z)
		}()
		good := gen.Pick(t.T, "good", gen.Zones...)
		if got := csvtoprotoparse.MustLoadLocation(good); got.String() != good {
			t.Fatalf("MustLoadLocation(%q) = %v", good, got)
		}
	})
}

func TestTimeToTimestampRange(t *testing.T) {
	minT := time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)
	maxT := time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)
	pbt.Check(t, 5000, func(t *pbt.T) {
		var tm time.Time
		switch gen.Int(t.T, 0, 3, "kind") {
		case 0:
			tm = minT.Add(time.Duration(gen.Int(t.T, -3, 3, "off")))
		case 1:
			tm = maxT.Add(time.Duration(gen.Int(t.T, -3, 3, "off")))
		case 2:
			tm = time.Unix(gen.Int64(t.T, "sec")>>24, int64(gen.Int(t.T, 0, 999999999, "ns")))
		default:
			tm = time.Date(gen.Int(t.T, -200, 12000, "y"), 1, 1, 0, 0, 0, 0, gen.Zone(t.T, "z"))
		}
		t.Case(true, tm.UTC().String())
		got, err := csvtoprotoparse.TimeToTimestamp(tm)
		if ok := !tm.Before(minT) && tm.Before(maxT); ok != (err == nil) {
			t.Fatalf("TimeToTimestamp(%v) = %v, %v; in range: %v", tm.UTC(), got, err, ok)
		}
		if err != nil {
			t.Class("out-of-range")
			return
		}
		if d := tsEqual(got, tm); d != "" {
			t.Fatalf("TimeToTimestamp(%v): %s", tm, d)
		}
	})
}

func durEqual(d *dpb.Duration, ns *big.Int) string {
	if d == nil {
		return "nil duration without error"
	}
	got := new(big.Int).Add(new(big.Int).Mul(big.NewInt(d.Seconds), big.NewInt(1e9)), big.NewInt(int64(d.Nanos)))
	if got.Cmp(ns) != 0 || d.Nanos <= -1e9 || d.Nanos >= 1e9 || d.Seconds > 0 && d.Nanos < 0 || d.Seconds < 0 && d.Nanos > 0 {
		return fmt.Sprintf("got {%d s, %d ns}, want %v ns", d.Seconds, d.Nanos, ns)
	}
	return ""
}

var units = []struct {
	name string
	ns   int64
	frac int // digits after the point that are still whole nanoseconds
}{{"ns", 1, 0}, {"us", 1e3, 3}, {"µs", 1e3, 3}, {"ms", 1e6, 6}, {"s", 1e9, 9}, {"m", 60e9, 9}, {"h", 3600e9, 9}}

func TestDurations(t *testing.T) {
	pbt.Check(t, 12000, func(t *pbt.T) {
		// The text is a sequence of value+unit; its last unit is moved to the
		// unit argument half of the time.
		n := gen.Int(t.T, 1, 3, "n")
		total := new(big.Int)
		text, unit := "", ""
		for i := 0; i < n; i++ {
			u := units[gen.Int(t.T, 0, len(units)-1, "unit")]
			whole := int64(gen.Int(t.T, 0, 200000, "whole"))
			if gen.OneIn(t.T, 6, "big") {
				whole = int64(gen.Int(t.T, 0, 9223372036, "wholebig"))
			}
			if gen.OneIn(t.T, 6, "limit") {
				whole = math.MaxInt64/u.ns - int64(gen.Int(t.T, 0, 2, "below"))
			}
			part := strconv.FormatInt(whole, 10)
			total.Add(total, new(big.Int).Mul(big.NewInt(whole), big.NewInt(u.ns)))
			if u.frac > 0 && gen.Bool(t.T, "hasfrac") {
				nd := gen.Int(t.T, 1, u.frac, "nd")
				f := gen.Int(t.T, 0, int(math.Pow10(nd))-1, "f")
				part += fmt.Sprintf(".%0*d", nd, f)
				total.Add(total, new(big.Int).Div(new(big.Int).Mul(big.NewInt(int64(f)), big.NewInt(u.ns)), big.NewInt(int64(math.Pow10(nd)))))
			}
			if u.frac == 9 && gen.OneIn(t.T, 4, "nearwhole") {
				// The last nanosecond before a whole second, however far off.
				ns := []string{".999999999", ".999999998", ".000000001"}[gen.Int(t.T, 0, 2, "ns")]
				if u.ns == 1e9 && !strings.Contains(part, ".") {
					part += ns
					f, _ := strconv.Atoi(ns[1:])
					total.Add(total, big.NewInt(int64(f)))
				}
			}
			text += part
			if i == n-1 && gen.Bool(t.T, "suffix") {
				unit = u.name
			} else {
				text += u.name
			}
		}
		if gen.Bool(t.T, "neg") {
			text = "-" + text
			total.Neg(total)
		}
		t.Case(n > 1 || unit != "", fmt.Sprintf("ParseDuration(%q, %q)", text, unit))
		got, err := csvtoprotoparse.ParseDuration(text, unit)
		if inRange := total.IsInt64(); !inRange {
			if err == nil {
				t.Fatalf("ParseDuration(%q, %q) = %v, want an overflow error", text, unit, got)
			}
			t.Class("overflow")
			return
		}
		if err != nil {
			t.Fatalf("ParseDuration(%q, %q): %v", text, unit, err)
		}
		if d := durEqual(got, total); d != "" {
			t.Fatalf("ParseDuration(%q, %q): %s", text, unit, d)
		}
		for _, bad := range []string{text + "q", "x" + text, text + unit + "1"} {
			if got, err := csvtoprotoparse.ParseDuration(bad, ""); err == nil {
				t.Fatalf("ParseDuration(%q, \"\") = %v, want an error", bad, got)
			}
		}
	})
}

// TestOddDurations: with the unit appended, the text is a Go duration or it is
// an error; nothing else about it matters.
func TestOddDurations(t *testing.T) {
	pbt.Check(t, 12000, func(t *pbt.T) {
		unit := ""
		if !gen.OneIn(t.T, 4, "nounit") {
			unit = units[gen.Int(t.T, 0, len(units)-1, "unit")].name
		}
		text := ""
		for n := gen.Int(t.T, 0, 3, "pieces"); n > 0; n-- {
			switch gen.Int(t.T, 0, 5, "piece") {
			case 0, 1:
				text += strconv.Itoa(gen.Int(t.T, 0, 100, "num"))
			case 2:
				text += gen.Pick(t.T, "num2", ".5", "5.", "1.5", "0", "00", "+1", "-1", "1e3", "1,000", "0x10", "1_0", "９", "∞", ".")
			case 3:
				text += units[gen.Int(t.T, 0, len(units)-1, "u")].name
			case 4:
				text += unit
			default:
				text += gen.Pick(t.T, "junk", " ", "\t", "\n", "-", "+", "S", "sec", "d", "μs", "M", "H", "\u00a0", "\x00", "n", "a")
			}
		}
		want, werr := time.ParseDuration(text + unit)
		t.Case(unit != "" && text != "", fmt.Sprintf("ParseDuration(%q, %q)", text, unit))
		got, err := csvtoprotoparse.ParseDuration(text, unit)
		if (err != nil) != (werr != nil) {
			t.Fatalf("ParseDuration(%q, %q) = %v, %v; %q is %v, %v", text, unit, got, err, text+unit, want, werr)
		}
		if err != nil {
			t.Class("rejected")
			return
		}
		t.Class("accepted")
		if d := durEqual(got, big.NewInt(int64(want))); d != "" {
			t.Fatalf("ParseDuration(%q, %q): %s", text, unit, d)
		}
	})
}

// TestOddTimestamps: a text with a few characters changed denotes what the
// layout says it denotes, or it is an error.
func TestOddTimestamps(t *testing.T) {
	pbt.Check(t, 12000, func(t *pbt.T) {
		layout := gen.Pick(t.T, "layout", layouts...)
		loc := gen.Zone(t.T, "zone")
		zone := zoneName(t, loc)
		r := []rune(gen.WallTime(t.T, loc, 1, 9999, "tm").Format(layout))
		for n := gen.Int(t.T, 1, 3, "edits"); n > 0; n-- {
			at := gen.Int(t.T, 0, len(r), "at")
			ins := []rune(gen.Pick(t.T, "ins", "", "", "0", "1", "9", " ", "-", ":", ".", ".5", ",", "Z", "T", "t", "UTC", "+01:00", "+0100", "\t", "\n", "\u00a0", "\ufeff", "１"))
			del := 0
			if at < len(r) {
				del = gen.Int(t.T, 0, 1, "del")
			}
			r = append(append(append([]rune{}, r[:at]...), ins...), r[at+del:]...)
		}
		text := string(r)
		want, werr := time.ParseInLocation(layout, text, loc)
		if werr == nil {
			if y := want.UTC().Year(); y < 1 || y > 9999 {
				werr = fmt.Errorf("outside the years 1 to 9999")
			}
		}
		t.Case(werr != nil, fmt.Sprintf("ParseTimestamp(%q, %q, %q)", text, layout, zone))
		got, err := csvtoprotoparse.ParseTimestamp(text, layout, zone)
		if (err != nil) != (werr != nil) {
			t.Fatalf("ParseTimestamp(%q, %q, %q) = %v, %v; by the layout: %v, %v", text, layout, zone, got, err, want, werr)
		}
		if err != nil {
			t.Class("rejected")
			return
		}
		t.Class("accepted")
		if d := tsEqual(got, want); d != "" {
			t.Fatalf("ParseTimestamp(%q, %q, %q): %s", text, layout, zone, d)
		}
	})
}

func TestDurationProto(t *testing.T) {
	pbt.Check(t, 5000, func(t *pbt.T) {
		d := time.Duration(gen.Int64(t.T, "d"))
		if gen.Bool(t.T, "scale") {
			d = time.Duration(gen.Int(t.T, -9, 9, "s"))*time.Second + time.Duration(gen.Int(t.T, -3, 3, "ns"))
		}
		if gen.Bool(t.T, "near") {
			// A little off a whole number of seconds, however large.
			d = d/time.Second*time.Second + time.Duration(gen.Int(t.T, -3, 3, "off"))
		}
		t.Case(d != 0, strconv.FormatInt(int64(d), 10))
		got, err := csvtoprotoparse.DurationToDurationProto(d)
		if err != nil {
			t.Fatalf("DurationToDurationProto(%d): %v", int64(d), err)
		}
		if s := durEqual(got, big.NewInt(int64(d))); s != "" {
			t.Fatalf("DurationToDurationProto(%d): %s", int64(d), s)
		}
	})
}
