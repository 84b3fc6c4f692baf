// Package gen holds the input generators shared by several checks.
package gen

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// D is what generators draw from.
type D = *rapid.T

// Int draws an int in [lo, hi].
func Int(t D, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// Bool draws a bool.
func Bool(t D, label string) bool { return rapid.Bool().Draw(t, label) }

// Pick draws one of the values.
func Pick[V any](t D, label string, vs ...V) V { return rapid.SampledFrom(vs).Draw(t, label) }

// OneIn is true about once in n draws.
func OneIn(t D, n int, label string) bool { return rapid.IntRange(1, n).Draw(t, label) == n }

// Ident draws a lower snake-case identifier that is legal in proto and Go and
// not a keyword.
func Ident(t D, label string) string {
	return rapid.StringMatching(`[a-z][a-z]{1,5}(_[a-z]{2,5}){0,2}`).Draw(t, label)
}

// oddRunes is biased to the characters that break quoting, escaping, line
// handling and grammars.
var oddRunes = []rune{'"', '\'', '\\', '`', '\n', '\r', '\t', ' ', ',', ';', ':', '/', '*', '#', '%', '$', '&', '<', '>', '{', '}', '(', ')', '[', ']',
	'.', '-', '_', '+', '=', '?', '!', '|', '~', '^', '@', 0x7f, 0x1, 0x0b, 0x85, 0xa0, 0xe9, 0xdf, 0x130, 0x2028, 0x2029, 0xfeff, 0xfffd, 0x4e2d, 0x1f600, 0x10ffff, 0xe000, 0x301}

// Text draws a valid UTF-8 string of up to max runes, biased to odd
// characters. NUL is left out.
func Text(t D, max int, label string) string {
	n := rapid.IntRange(0, max).Draw(t, label+".len")
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
		case 0, 1, 2:
			b.WriteByte(byte(rapid.SampledFrom([]rune("abcxyzABZ019 ")).Draw(t, label+".c")))
		case 3, 4:
			b.WriteRune(rapid.SampledFrom(oddRunes).Draw(t, label+".odd"))
		default:
			r := rune(rapid.IntRange(1, 0x10ffff).Draw(t, label+".any"))
			if r >= 0xd800 && r < 0xe000 {
				r = 'q'
			}
			b.WriteRune(r)
		}
	}
	return b.String()
}

// Line is Text without line breaks.
func Line(t D, max int, label string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' {
			return '-'
		}
		return r
	}, Text(t, max, label))
}

// Int64 draws an integer biased to the limits of the machine types.
func Int64(t D, label string) int64 {
	switch rapid.IntRange(0, 3).Draw(t, label+".kind") {
	case 0:
		base := rapid.SampledFrom([]int64{0, math.MaxInt8, math.MinInt8, math.MaxUint8, math.MaxInt16, math.MinInt16, math.MaxUint16,
			math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64, math.MinInt64, 1 << 53, -(1 << 53), 1 << 24}).Draw(t, label+".edge")
		return base + int64(rapid.IntRange(-2, 2).Draw(t, label+".off"))
	case 1:
		return rapid.Int64().Draw(t, label+".any")
	default:
		return int64(rapid.IntRange(-1000, 1000).Draw(t, label+".small"))
	}
}

// Lookalike replaces one character of a text by another that looks like it,
// folds to it or is a digit too, for code that means ASCII.
func Lookalike(t D, s, label string) string {
	if s == "" {
		return "\u00a0"
	}
	b := []byte(s)
	i := Int(t, 0, len(b)-1, label+".at")
	// Characters with a case-folding partner outside of ASCII come first.
	if j := strings.IndexAny(s, "sSkKiI"); j >= 0 && Bool(t, label+".fold") {
		i = j
	}
	c := b[i]
	var r []string
	switch {
	case c == 's' || c == 'S':
		r = []string{"\u017f"}
	case c == 'k' || c == 'K':
		r = []string{"\u212a"}
	case c == 'i' || c == 'I':
		r = []string{"\u0130", "\u0131"}
	case c >= '0' && c <= '9':
		r = []string{string(rune(0x660 + int(c-'0'))), string(rune(0xff10 + int(c-'0'))), string(rune(0x1d7ce + int(c-'0')))}
	case c == '-':
		r = []string{"\u2212", "\u2010"}
	case c == ' ':
		r = []string{"\u00a0", "\u3000", "\t"}
	}
	if c > ' ' && c < 0x7f {
		r = append(r, string(rune(0xff00+int(c)-0x20)))
	}
	if len(r) == 0 {
		return s
	}
	return string(b[:i]) + Pick(t, label+".look", r...) + string(b[i+1:])
}

// IntText draws a text that is an integer literal, or nearly one.
func IntText(t D, label string) string {
	s := intText(t, label)
	if OneIn(t, 30, label+".looks") {
		s = Lookalike(t, s, label)
	}
	return s
}

func intText(t D, label string) string {
	var s string
	switch rapid.IntRange(0, 9).Draw(t, label+".shape") {
	case 0, 1, 2, 3, 4:
		s = strconv.FormatInt(Int64(t, label), 10)
	case 5:
		b := new(big.Int).Add(big.NewInt(rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64}).Draw(t, label+".e")), big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, label+".o"))))
		s = b.String()
	case 6:
		s = strconv.FormatUint(rapid.SampledFrom([]uint64{math.MaxUint64, math.MaxUint32, math.MaxUint64 - 1, 1 << 63}).Draw(t, label+".u"), 10)
	case 7:
		s = rapid.StringMatching(`[+-]?[0-9]{1,25}`).Draw(t, label+".digits")
	case 8:
		s = rapid.SampledFrom([]string{"", "-", "+", "0x1f", "0b1", "0o7", "017", "1_000", "1e3", "1.0", " 1", "1 ", "--1", "+-1", "1.", "٣", "１", "0x", "1L", "NaN", "-0", "+0", "00", "1\n"}).Draw(t, label+".odd")
	default:
		s = rapid.StringMatching(`[+-]?[0-9_xXbo.eE ]{0,6}`).Draw(t, label+".mut")
	}
	if OneIn(t, 8, label+".plus") && s != "" && s[0] != '-' && s[0] != '+' {
		s = "+" + s
	}
	if OneIn(t, 8, label+".zeros") {
		sign := ""
		if s != "" && (s[0] == '-' || s[0] == '+') {
			sign, s = s[:1], s[1:]
		}
		s = sign + strings.Repeat("0", rapid.IntRange(1, 20).Draw(t, label+".nz")) + s
	}
	return s
}

// Float64 draws a float biased to special values (NaN left out unless asked).
func Float64(t D, label string, nan bool) float64 {
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0:
		vs := []float64{0, math.Copysign(0, -1), 1, -1, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64, math.SmallestNonzeroFloat64,
			math.Inf(1), math.Inf(-1), 1 << 24, 1<<24 + 1, 1 << 53, 1<<53 + 2, 0.1, 1e-7, 1e21, 1e20, 123456789, 3.4028235677973366e+38, 1e100}
		if nan {
			vs = append(vs, math.NaN())
		}
		return rapid.SampledFrom(vs).Draw(t, label+".edge")
	case 1:
		return float64(math.Float32frombits(uint32(rapid.Uint32Range(0, 0x7f7fffff).Draw(t, label+".bits")))) * float64(rapid.SampledFrom([]int{1, -1}).Draw(t, label+".sg"))
	case 2:
		f := math.Float64frombits(rapid.Uint64Range(0, 0x7fefffffffffffff).Draw(t, label+".bits64"))
		return f
	default:
		return float64(rapid.IntRange(-100000, 100000).Draw(t, label+".n")) / float64(rapid.SampledFrom([]int{1, 2, 8, 10, 100, 3}).Draw(t, label+".d"))
	}
}

// FloatText draws a text that is a float literal, or nearly one, including
// decimal texts that round differently when rounded twice.
func FloatText(t D, label string) string {
	s := floatText(t, label)
	if OneIn(t, 30, label+".looks") {
		s = Lookalike(t, s, label)
	}
	return s
}

func floatText(t D, label string) string {
	switch rapid.IntRange(0, 9).Draw(t, label+".shape") {
	case 0, 1, 2:
		return strconv.FormatFloat(Float64(t, label, true), rapid.SampledFrom([]byte{'g', 'e', 'f', 'x'}).Draw(t, label+".fmt"), -1, rapid.SampledFrom([]int{32, 64}).Draw(t, label+".bits"))
	case 3, 4:
		// Just above or below the midpoint of two neighbouring float32 values,
		// by less than a float64 can tell.
		bits := rapid.Uint32Range(0x00800000, 0x7f000000).Draw(t, label+".mid")
		a, b := math.Float32frombits(bits), math.Float32frombits(bits+1)
		mid := new(big.Float).SetPrec(400).Add(new(big.Float).SetFloat64(float64(a)), new(big.Float).SetFloat64(float64(b)))
		mid.Quo(mid, big.NewFloat(2))
		s := mid.Text('e', 120)
		i := strings.IndexByte(s, 'e')
		return s[:i] + rapid.SampledFrom([]string{"", "1"}).Draw(t, label+".tail") + s[i:]
	case 5:
		return IntText(t, label)
	case 6:
		return rapid.SampledFrom([]string{"", "inf", "Inf", "-inf", "+Infinity", "infinity", "nan", "NaN", "-NaN", ".", "1.", ".5", "-.5", "1e", "1e400", "-1e400", "1e-400", "3.4028235e38", "3.4028236e38", "3.5e38", "1e39", "0x1p-2", "0x1.8p1", "0x1", "1_0.5", "1,5", " 1.5", "1.5 ", "1.5f", "--1.5", "+.e1"}).Draw(t, label+".odd")
	case 7:
		return rapid.StringMatching(`[+-]?[0-9]{0,20}\.[0-9]{0,20}([eE][+-]?[0-9]{1,3})?`).Draw(t, label+".dec")
	default:
		return rapid.StringMatching(`[+-]?[0-9]{1,4}(\.[0-9]{1,4})?`).Draw(t, label+".plain")
	}
}

// Zones are IANA zone names with varied offsets and rules.
var Zones = []string{"UTC", "America/Los_Angeles", "America/New_York", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "Europe/London", "Pacific/Apia", "Pacific/Kiritimati", "America/St_Johns", "Africa/Monrovia", "Asia/Tokyo", "America/Sao_Paulo"}

// Zone loads one of Zones.
func Zone(t D, label string) *time.Location {
	name := rapid.SampledFrom(Zones).Draw(t, label)
	loc, err := time.LoadLocation(name)
	if err != nil {
		panic(fmt.Sprintf("HARNESS: no zone %s: %v", name, err))
	}
	return loc
}

// WallTime draws a wall-clock time in loc that exists exactly once there (so
// that a text without an offset denotes one instant).
func WallTime(t D, loc *time.Location, minYear, maxYear int, label string) time.Time {
	var y int
	if OneIn(t, 4, label+".anyyear") {
		y = rapid.IntRange(minYear, maxYear).Draw(t, label+".y")
	} else {
		lo, hi := 1950, 2060
		if lo < minYear {
			lo = minYear
		}
		if hi > maxYear {
			hi = maxYear
		}
		y = rapid.IntRange(lo, hi).Draw(t, label+".y")
	}
	ns := 0
	if OneIn(t, 3, label+".sub") {
		ns = rapid.SampledFrom([]int{1, 999999999, 500000000, 123000000, 123456000, 120000000}).Draw(t, label+".ns")
	}
	tm := time.Date(y, time.Month(rapid.IntRange(1, 12).Draw(t, label+".m")), rapid.IntRange(1, 28).Draw(t, label+".d"),
		rapid.IntRange(0, 23).Draw(t, label+".h"), rapid.IntRange(0, 59).Draw(t, label+".mi"), rapid.IntRange(0, 59).Draw(t, label+".s"), ns, loc)
	if !Unambiguous(tm) {
		tm = time.Date(y, 7, 2, 12, tm.Minute(), tm.Second(), ns, loc)
		if !Unambiguous(tm) {
			tm = time.Date(y, 6, 5, 13, tm.Minute(), tm.Second(), ns, loc)
		}
	}
	return tm
}

// Unambiguous reports whether no zone transition lies within a day and a bit
// of tm (Samoa skipped a whole day).
func Unambiguous(tm time.Time) bool {
	_, a := tm.Add(-26 * time.Hour).Zone()
	_, b := tm.Add(26 * time.Hour).Zone()
	_, c := tm.Zone()
	return a == c && b == c
}

// CSV writes records as CSV text: cells are quoted when they must be and at
// random otherwise, lines end in LF or CRLF, and the last line may lack its
// end. Cells must not hold carriage returns.
func CSV(t D, rows [][]string, label string) string {
	eol := "\n"
	if OneIn(t, 4, label+".crlf") {
		eol = "\r\n"
	}
	var b strings.Builder
	one := func(i, j, n int, label string) bool {
		if i > 60 { // long tables: no draw per cell
			return (i*31+j*17)%(n+1) == 0
		}
		return OneIn(t, n, label)
	}
	for i, r := range rows {
		for j, c := range r {
			if j > 0 {
				b.WriteByte(',')
			}
			quote := strings.ContainsAny(c, ",\"\n\r") || len(r) == 1 && c == "" || one(i, j, 6, label+".quote")
			if quote {
				b.WriteString(`"` + strings.ReplaceAll(c, `"`, `""`) + `"`)
			} else {
				b.WriteString(c)
			}
		}
		if i < len(rows)-1 || !OneIn(t, 4, label+".noeol") {
			b.WriteString(eol)
			if one(i, 0, 20, label+".blank") {
				b.WriteString(eol) // blank lines are no records
			}
		}
	}
	return b.String()
}
