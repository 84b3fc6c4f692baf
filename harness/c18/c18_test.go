package c18

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	pb "github.com/google/xtoproto/proto/wirepath"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/wp"
	"github.com/google/xtoproto/wirepath"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "paths of up to 40 elements with every map key kind; texts of paths in every spelling the syntax allows; texts with a fault; non-trivial: at least two elements or a map key; distinct by path or text")
}

func nontrivial(p []wp.Elem) bool {
	for _, e := range p {
		if _, ok := e.Slot.(wp.Key); ok {
			return true
		}
	}
	return len(p) > 1
}

func mustPath(t *pbt.T, p *pb.WirePath) *wirepath.WirePath {
	w, err := wirepath.FromProto(p)
	if err != nil {
		t.Fatalf("FromProto: %v", err)
	}
	return w
}

func TestFormatParse(t *testing.T) {
	pbt.Check(t, 60000, func(t *pbt.T) {
		max := 4
		if gen.OneIn(t.T, 6, "long") {
			max = 40
		} else if gen.OneIn(t.T, 100, "longer") {
			max = 700
		}
		p := wp.Path(t.T, max)
		t.Case(nontrivial(p), wp.Describe(p))
		if len(p) > 11 {
			t.Class("more than 11 elements")
		}
		want := wp.Proto(p)
		keep := proto.Clone(want)
		text := mustPath(t, want).String()
		got, err := wirepath.ParseString(text)
		if err != nil {
			t.Fatalf("%q, the text of the path, does not parse: %v", text, err)
		}
		if got == nil || !proto.Equal(got.Proto(), want) {
			t.Fatalf("%q, the text of the path, parses as %v", text, got)
		}
		if !proto.Equal(keep, want) {
			t.Fatalf("formatting changed the path to %v", want)
		}
		if again := got.String(); again != text {
			t.Fatalf("%q is formatted as %q after parsing", text, again)
		}
	})
}

// spell writes the path in one of the spellings of the syntax.
func spell(t *pbt.T, p []wp.Elem) string {
	zeros := func(s string) string {
		if gen.OneIn(t.T, 8, "zeros") {
			return "00" + s
		}
		return s
	}
	var parts []string
	for _, e := range p {
		if e.Self {
			parts = append(parts, ".")
			continue
		}
		s := zeros(fmt.Sprint(e.Num))
		if e.Name != "" {
			s += "(" + e.Name + ")"
		}
		switch v := e.Slot.(type) {
		case wp.Offset:
			sign := ""
			if gen.OneIn(t.T, 6, "plus") {
				sign = "+"
			}
			s += fmt.Sprintf("[%s%d]", sign, int64(v))
		case wp.Key:
			switch x := v.Val.(type) {
			case string:
				s += "[" + quote(t, x) + "]"
			case bool:
				if x {
					s += "[1:bool]"
				} else {
					s += "[0:bool]"
				}
			default:
				k := v.Kind.String()
				if gen.OneIn(t.T, 8, "upper") {
					k = strings.ToUpper(k)
				}
				s += fmt.Sprintf("[%d:%s]", x, k)
			}
		}
		parts = append(parts, s)
	}
	pad := func() string { return gen.Pick(t.T, "pad", "", "", "", " ", "\n\t") }
	return pad() + strings.Join(parts, "/") + pad()
}

func quote(t *pbt.T, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	esc := map[byte]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`, '\\': `\\`, '"': `\"`, '\'': `\'`}
	for i := 0; i < len(s); i++ {
		c := s[i]
		must := c == '"' || c == '\\' || c == '\n' || c == 0
		if !must && !gen.OneIn(t.T, 5, "esc") {
			b.WriteByte(c)
			continue
		}
		if e, ok := esc[c]; ok && gen.Bool(t.T, "named") {
			b.WriteString(e)
			continue
		}
		b.WriteString(fmt.Sprintf(gen.Pick(t.T, "hex", `\x%02x`, `\X%02X`, `\x%02X`), c))
	}
	b.WriteByte('"')
	return b.String()
}

func TestSpellings(t *testing.T) {
	pbt.Check(t, 60000, func(t *pbt.T) {
		max := 5
		if gen.OneIn(t.T, 100, "long") {
			max = 400
		}
		p := wp.Path(t.T, max)
		text := spell(t, p)
		t.Case(nontrivial(p), fmt.Sprintf("%q", text))
		got, err := wirepath.ParseString(text)
		if err != nil {
			t.Fatalf("the text does not parse: %v", err)
		}
		if got == nil || !proto.Equal(got.Proto(), wp.Proto(p)) {
			t.Fatalf("the text parses as %v, want %s", got, wp.Describe(p))
		}
	})
}

const (
	yes = iota
	no
	unsaid
)

// read is the reference reader: it decides whether text is a path, and which.
// Texts the syntax does not settle (a slash at the end, signs of unsigned and
// bool keys, octal escapes, type names in odd capitals) are unsaid.
func read(text string) ([]wp.Elem, int) {
	s := strings.TrimSpace(text)
	if s == "" {
		return nil, unsaid
	}
	verdict := yes
	var p []wp.Elem
	i := 0
	take := func(ok func(c byte) bool) string {
		st := i
		for i < len(s) && ok(s[i]) {
			i++
		}
		return s[st:i]
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	letter := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	ident := func() string {
		if i >= len(s) || !letter(s[i]) {
			return ""
		}
		return take(func(c byte) bool { return letter(c) || digit(c) || c == '_' })
	}
	at := func(c byte) bool {
		if i < len(s) && s[i] == c {
			i++
			return true
		}
		return false
	}
	for {
		var e wp.Elem
		if at('.') {
			e.Self = true
		} else {
			d := take(digit)
			n, ok := new(big.Int).SetString(d, 10)
			if !ok || !n.IsInt64() || n.Int64() > 1<<31-1 {
				return nil, no
			}
			e.Num = int32(n.Int64())
			if at('(') {
				if e.Name = ident(); e.Name == "" || !at(')') {
					return nil, no
				}
			}
			if at('[') {
				if at('"') {
					var b strings.Builder
					for {
						if i >= len(s) {
							return nil, no
						}
						c := s[i]
						i++
						if c == '"' {
							break
						}
						if c == 0 || c == '\n' {
							return nil, no
						}
						if c != '\\' {
							b.WriteByte(c)
							continue
						}
						if i >= len(s) {
							return nil, no
						}
						c = s[i]
						i++
						if k := strings.IndexByte(`abfnrtv\'"`, c); k >= 0 {
							b.WriteByte("\a\b\f\n\r\t\v\\'\""[k])
						} else if c == 'x' || c == 'X' {
							v := 0
							for j := 0; j < 2; j++ {
								if i >= len(s) {
									return nil, no
								}
								h := strings.IndexByte("0123456789abcdefABCDEF", s[i])
								if h < 0 {
									return nil, no
								}
								if h > 15 {
									h -= 6
								}
								v = v*16 + h
								i++
							}
							b.WriteByte(byte(v))
						} else if c >= '0' && c <= '7' {
							return nil, unsaid
						} else {
							return nil, no
						}
					}
					e.Slot = wp.Key{Kind: protoreflect.StringKind, Val: b.String()}
				} else {
					sign := ""
					if at('-') {
						sign = "-"
					} else if at('+') {
						sign = "+"
					}
					d := take(digit)
					if d == "" || len(d) > 1 && d[0] == '0' {
						return nil, no
					}
					n, _ := new(big.Int).SetString(sign+d, 10)
					if at(':') {
						k := ident()
						kind := protoreflect.Kind(0)
						for _, x := range wp.KeyKinds {
							if x != protoreflect.StringKind && x.String() == strings.ToLower(k) {
								kind = x
							}
						}
						if kind == 0 {
							return nil, no
						}
						key, fits := intKey(kind, n)
						if !fits {
							return nil, no
						}
						if sign != "" && key.Kind != protoreflect.Int32Kind && key.Kind != protoreflect.Int64Kind {
							verdict = unsaid
						}
						if strings.ToLower(k) != k {
							verdict = unsaid
						}
						e.Slot = key
					} else {
						if !n.IsInt64() {
							return nil, no
						}
						if n.Sign() < 0 {
							verdict = unsaid
						}
						e.Slot = wp.Offset(n.Int64())
					}
				}
				if !at(']') {
					return nil, no
				}
			}
		}
		p = append(p, e)
		if i == len(s) {
			return p, verdict
		}
		if !at('/') {
			return nil, no
		}
		if i == len(s) {
			return nil, unsaid
		}
	}
}

func intKey(kind protoreflect.Kind, n *big.Int) (wp.Key, bool) {
	bits, signed := 64, true
	switch kind {
	case protoreflect.BoolKind:
		return wp.Key{Kind: kind, Val: n.Sign() != 0}, n.IsInt64() && (n.Int64() == 0 || n.Int64() == 1)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		bits = 32
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		bits, signed = 32, false
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		signed = false
	}
	if signed {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		if n.Cmp(lim) >= 0 || n.Cmp(new(big.Int).Neg(lim)) < 0 {
			return wp.Key{}, false
		}
		if bits == 32 {
			return wp.Key{Kind: kind, Val: int32(n.Int64())}, true
		}
		return wp.Key{Kind: kind, Val: n.Int64()}, true
	}
	if n.Sign() < 0 || n.BitLen() > bits {
		return wp.Key{}, false
	}
	if bits == 32 {
		return wp.Key{Kind: kind, Val: uint32(n.Uint64())}, true
	}
	return wp.Key{Kind: kind, Val: n.Uint64()}, true
}

// text draws a text near the syntax.
func text(t *pbt.T) string {
	switch gen.Int(t.T, 0, 3, "shape") {
	case 0:
		return rapid.StringMatching(`[0-9]{0,11}(\([a-zA-Z_0-9]{0,3}\))?(\[([-+]?[0-9]{1,20}(:[a-z]{3,7}(32|64)?)?|"[^"]{0,3}")\])?(/[0-9.]{0,3}){0,3}`).Draw(t.T, "near")
	case 1:
		kind := gen.Pick(t.T, "kind", "bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "string", "double", "enum", "Int32", "")
		return fmt.Sprintf("%d[%s:%s]", gen.Int(t.T, 0, 99, "n"), gen.IntText(t.T, "lit"), kind)
	case 2:
		return rapid.StringMatching(`([0-9.()\[\]"/\\:a-z! ]|\\x[0-9a-fA-F]{1,2}){0,14}`).Draw(t.T, "soup")
	}
	s := spell(t, wp.Path(t.T, 4))
	for k := gen.Int(t.T, 1, 2, "faults"); k > 0; k-- {
		i := gen.Int(t.T, 0, len(s), "at")
		j := min(len(s), i+gen.Int(t.T, 0, 2, "del"))
		ins := gen.Pick(t.T, "ins", "", "", "/", "\"", "\\", "[", "]", "(", ")", ".", ":", "-", "0", "7", "x", " ", "\n", "\x00", "\xff", "é", "_")
		s = s[:i] + ins + s[j:]
	}
	return s
}

func TestTexts(t *testing.T) {
	pbt.Check(t, 120000, func(t *pbt.T) {
		s := text(t)
		want, verdict := read(s)
		t.Case(verdict == no || nontrivial(want), fmt.Sprintf("%q", s))
		t.Class([]string{"a path", "not a path", "unsaid"}[verdict])
		got, err := wirepath.ParseString(s)
		if err != nil {
			if verdict == yes {
				t.Fatalf("rejected, though it is %s: %v", wp.Describe(want), err)
			}
			return
		}
		if verdict == no {
			t.Fatalf("parses as %v, though it is no path", got)
		}
		if got == nil {
			if strings.Trim(s, " \t\r\n\v\f\u0085\u00a0\u2028\u2029\u3000") != "" && verdict == yes {
				t.Fatalf("parses as no path")
			}
			return
		}
		if want != nil && !proto.Equal(got.Proto(), wp.Proto(want)) {
			t.Fatalf("parses as %v, want %s", got, wp.Describe(want))
		}
		out := got.String()
		again, err := wirepath.ParseString(out)
		if err != nil {
			t.Fatalf("parses, but its formatted text %q does not: %v", out, err)
		}
		if again == nil || !proto.Equal(again.Proto(), got.Proto()) {
			t.Fatalf("parses as %v, but its formatted text %q as %v", got.Proto(), out, again)
		}
	})
}

func TestRegressions(t *testing.T) {
	rt := func(name string, p []wp.Elem) {
		pbt.Regression(t, name, func() string {
			w, err := wirepath.FromProto(wp.Proto(p))
			if err != nil {
				return err.Error()
			}
			got, err := wirepath.ParseString(w.String())
			if err != nil {
				return fmt.Sprintf("%s: %v", w, err)
			}
			if !proto.Equal(got.Proto(), w.Proto()) {
				return fmt.Sprintf("%s parses as %v", w, got.Proto())
			}
			return ""
		})
	}
	rt("three elements", []wp.Elem{{Num: 1}, {Num: 2}, {Num: 3}})
	rt("sfixed32", []wp.Elem{{Num: 1, Slot: wp.Key{Kind: protoreflect.Sfixed32Kind, Val: int32(1)}}})
	rt("bool", []wp.Elem{{Num: 1, Slot: wp.Key{Kind: protoreflect.BoolKind, Val: true}}})
	rt("two string keys", []wp.Elem{{Num: 1, Slot: wp.Key{Kind: protoreflect.StringKind, Val: "a"}}, {Num: 2, Slot: wp.Key{Kind: protoreflect.StringKind, Val: `/"\`}}})
	rt("odd string key", []wp.Elem{{Num: 1, Slot: wp.Key{Kind: protoreflect.StringKind, Val: "\x00\u2028\U0010ffff"}}})
	var long []wp.Elem
	for i := int32(1); i < 200; i++ {
		long = append(long, wp.Elem{Num: i})
	}
	rt("long", long)
}
