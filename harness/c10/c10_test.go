package c10

import (
	"encoding"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/google/xtoproto/textcoder"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/ref"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "basic kind or named type over it x (random value | random text near the kind's syntax and range limits), through Marshal/Unmarshal, GetCoder, GetDecoder and a private registry; non-trivial: the value is not zero and the text is longer than one character; distinct by type and text")
}

type (
	nInt    int
	nInt8   int8
	nInt16  int16
	nInt32  int32
	nInt64  int64
	nUint   uint
	nUint8  uint8
	nUint16 uint16
	nUint32 uint32
	nUint64 uint64
	nBool   bool
	nF32    float32
	nF64    float64
	nString string
	nnInt   nInt
)

var types = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(false), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
	reflect.TypeOf(nInt(0)), reflect.TypeOf(nInt8(0)), reflect.TypeOf(nInt16(0)), reflect.TypeOf(nInt32(0)), reflect.TypeOf(nInt64(0)),
	reflect.TypeOf(nUint(0)), reflect.TypeOf(nUint8(0)), reflect.TypeOf(nUint16(0)), reflect.TypeOf(nUint32(0)), reflect.TypeOf(nUint64(0)),
	reflect.TypeOf(nBool(false)), reflect.TypeOf(nF32(0)), reflect.TypeOf(nF64(0)), reflect.TypeOf(nString("")), reflect.TypeOf(nnInt(0)),
}

func drawText(t *pbt.T, typ reflect.Type) string {
	switch typ.Kind() {
	case reflect.Float32, reflect.Float64:
		return gen.FloatText(t.T, "text")
	case reflect.Bool:
		w := gen.Pick(t.T, "word", "true", "false", "1", "0", "on", "off", "yes", "no", "t", "f", "y", "n", "", "2", "00", "truth", "null", "enabled", "01", "-1", "nope", "yess")
		b := []byte(w)
		for i := range b {
			if gen.Bool(t.T, "up") {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		w = string(b)
		if gen.OneIn(t.T, 8, "looks") {
			w = gen.Lookalike(t.T, w, "looks")
		}
		if gen.OneIn(t.T, 8, "pad") {
			w = gen.Pick(t.T, "padding", " ", "\t", "\n", ".") + w
		}
		if gen.OneIn(t.T, 8, "padr") {
			w += gen.Pick(t.T, "padding", " ", "\t", "\n", ".", "\x00", "\r", "\u00a0", "\ufeff", "s")
		}
		return w
	case reflect.String:
		return anyText(t)
	}
	return gen.IntText(t.T, "text")
}

// anyText draws a text: short or long, valid UTF-8 or not.
func anyText(t *pbt.T) string {
	s := gen.Text(t.T, 20, "text")
	if gen.OneIn(t.T, 8, "raw") {
		at := gen.Int(t.T, 0, len(s), "rawat")
		s = s[:at] + gen.Pick(t.T, "rawbytes", "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x00", "\r", "\ufeff", "\xc0\x80") + s[at:]
	}
	if gen.OneIn(t.T, 60, "longtext") {
		s = strings.Repeat(s+"x", gen.Pick(t.T, "repeats", 20, 300, 5000)) + s
	}
	return s
}

// decoders are the ways a text can be decoded; all must agree.
func decode(how int, private *textcoder.Registry, typ reflect.Type, s string) (reflect.Value, error) {
	dst := reflect.New(typ)
	if typ.Kind() == reflect.String {
		dst.Elem().SetString("old")
	}
	var err error
	switch how {
	case 0:
		err = textcoder.Unmarshal(s, dst.Interface())
	case 1:
		err = textcoder.UnmarshalContext(textcoder.NewContext(), s, dst.Interface())
	case 2:
		err = textcoder.DefaultRegistry().GetDecoder(typ).DecodeText(textcoder.NewContext(), s, dst.Interface())
	case 3:
		err = textcoder.DefaultRegistry().GetCoder(typ).DecodeText(textcoder.NewContext(), s, dst.Interface())
	default:
		err = private.GetDecoder(typ).DecodeText(private.NewContext(), s, dst.Interface())
	}
	return dst.Elem(), err
}

func privateRegistry(t *pbt.T) *textcoder.Registry {
	r := textcoder.NewRegistry()
	if err := textcoder.RegisterBasicTypes(r); err != nil {
		t.Fatalf("RegisterBasicTypes: %v", err)
	}
	return r
}

func TestDecode(t *testing.T) {
	pbt.Check(t, 30000, func(t *pbt.T) {
		typ := types[gen.Int(t.T, 0, len(types)-1, "type")]
		s := drawText(t, typ)
		how := gen.Int(t.T, 0, 4, "how")
		t.Case(len(s) > 1, fmt.Sprintf("%v <- %q", typ, s))
		got, err := decode(how, privateRegistry(t), typ, s)
		want, ok := ref.Decode(typ, s)
		if (err == nil) != ok {
			t.Fatalf("decoding %q as %v (way %d): error %v, want accepted=%v", s, typ, how, err, ok)
		}
		if ok && !ref.Same(got, want) {
			t.Fatalf("decoding %q as %v (way %d): got %v, want %v", s, typ, how, got, want)
		}
		if ok {
			t.Class("accepted/" + typ.Kind().String())
		} else {
			t.Class("rejected/" + typ.Kind().String())
		}
	})
}

func drawValue(t *pbt.T, typ reflect.Type) reflect.Value {
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(gen.Int64(t.T, "v"))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(gen.Int64(t.T, "v")))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(gen.Float64(t.T, "v", true))
	case reflect.Bool:
		v.SetBool(gen.Bool(t.T, "v"))
	case reflect.String:
		v.SetString(anyText(t))
	}
	return v
}

func TestEncode(t *testing.T) {
	pbt.Check(t, 20000, func(t *pbt.T) {
		typ := types[gen.Int(t.T, 0, len(types)-1, "type")]
		v := drawValue(t, typ)
		var s string
		var err error
		how := gen.Int(t.T, 0, 3, "how")
		priv := privateRegistry(t)
		switch how {
		case 0:
			s, err = textcoder.Marshal(v.Interface())
		case 1:
			s, err = textcoder.MarshalContext(textcoder.NewContext(), v.Interface())
		case 2:
			s, err = textcoder.DefaultRegistry().GetCoder(typ).EncodeText(textcoder.NewContext(), v.Interface())
		default:
			s, err = priv.GetEncoder(typ).EncodeText(priv.NewContext(), v.Interface())
		}
		t.Case(!v.IsZero(), fmt.Sprintf("%v %v -> %q", typ, v, s))
		if err != nil {
			t.Fatalf("encoding %v %v: %v", typ, v, err)
		}
		want := ""
		switch typ.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			want = strconv.FormatInt(v.Int(), 10)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			want = strconv.FormatUint(v.Uint(), 10)
		case reflect.Float32, reflect.Float64:
			want = fmt.Sprintf("%f", v.Interface()) // as documented
		case reflect.Bool:
			want = "false"
			if v.Bool() {
				want = "true"
			}
		case reflect.String:
			want = v.String()
		}
		if s != want {
			t.Fatalf("encoding %v %v (way %d) gave %q, want %q", typ, v, how, s, want)
		}
		back, err := decode(gen.Int(t.T, 0, 4, "back"), priv, typ, s)
		if err != nil {
			t.Fatalf("%v %v encoded as %q, which does not decode: %v", typ, v, s, err)
		}
		wantBack := v
		if k := typ.Kind(); k == reflect.Float32 || k == reflect.Float64 {
			var ok bool
			if wantBack, ok = ref.Decode(typ, want); !ok {
				t.Fatalf("%q does not parse", want)
			}
			if f := v.Float(); f == math.Trunc(f) && math.Abs(f) < 1e15 && wantBack.Float() != f {
				t.Fatalf("whole number %v encoded as %q", v, s)
			}
		}
		if !ref.Same(back, wantBack) {
			t.Fatalf("%v %v encoded as %q decodes to %v", typ, v, s, back)
		}
	})
}

// Types with text methods: value and pointer receivers, over struct and basic
// kinds. The text form is chosen so that it cannot be mistaken for the
// built-in one.
type valRecv struct{ s string }

func (v valRecv) MarshalText() ([]byte, error) {
	if v.s == "bad" {
		return nil, errBad
	}
	return []byte("<" + v.s + ">"), nil
}
func (v *valRecv) UnmarshalText(b []byte) error {
	s := string(b)
	if !strings.HasPrefix(s, "<") || !strings.HasSuffix(s, ">") || len(s) < 2 {
		return errBad
	}
	v.s = s[1 : len(s)-1]
	return nil
}

type ptrRecv string

func (v *ptrRecv) MarshalText() ([]byte, error) { return valRecv{string(*v)}.MarshalText() }
func (v *ptrRecv) UnmarshalText(b []byte) error {
	var x valRecv
	if err := x.UnmarshalText(b); err != nil {
		return err
	}
	*v = ptrRecv(x.s)
	return nil
}

// onlyUn is decoded by its method and encoded as its kind; onlyMar is the
// other way about.
type onlyUn string

func (v *onlyUn) UnmarshalText(b []byte) error { return (*ptrRecv)(v).UnmarshalText(b) }

type onlyMar string

func (v onlyMar) MarshalText() ([]byte, error) { return valRecv{string(v)}.MarshalText() }

var errBad = errors.New("bad text")

var (
	_ encoding.TextMarshaler   = valRecv{}
	_ encoding.TextUnmarshaler = (*ptrRecv)(nil)
)

func TestTextMethods(t *testing.T) {
	pbt.Check(t, 6000, func(t *pbt.T) {
		s := gen.Text(t.T, 10, "s")
		if gen.OneIn(t.T, 6, "bad") {
			s = "bad"
		}
		coded := "<" + s + ">"
		kind := gen.Int(t.T, 0, 5, "kind")
		t.Case(len(s) > 0, fmt.Sprintf("kind %d %q", kind, s))
		enc := func(v interface{}, want string, fails bool) {
			got, err := textcoder.Marshal(v)
			if fails {
				if !errors.Is(err, errBad) {
					t.Fatalf("encoding %T %v: error %v, want the method's", v, v, err)
				}
				return
			}
			if err != nil || got != want {
				t.Fatalf("encoding %T %v gave %q, %v; want %q", v, v, got, err, want)
			}
		}
		dec := func(dst interface{}, text string, get func() string, want string, fails bool) {
			err := textcoder.Unmarshal(text, dst)
			if fails {
				if !errors.Is(err, errBad) {
					t.Fatalf("decoding %q into %T: error %v, want the method's", text, dst, err)
				}
				return
			}
			if err != nil || get() != want {
				t.Fatalf("decoding %q into %T gave %q, %v", text, dst, get(), err)
			}
		}
		rejected := !strings.HasPrefix(s, "<") || !strings.HasSuffix(s, ">") || len(s) < 2
		switch kind {
		case 0:
			enc(valRecv{s}, coded, s == "bad")
			var d valRecv
			dec(&d, coded, func() string { return d.s }, s, false)
			if rejected {
				dec(&d, s, func() string { return d.s }, "", true)
			}
		case 1:
			enc(ptrRecv(s), coded, s == "bad")
			var d ptrRecv
			dec(&d, coded, func() string { return string(d) }, s, false)
			if rejected {
				dec(&d, s, func() string { return string(d) }, "", true)
			}
		case 2:
			enc(onlyUn(s), s, false)
			var d onlyUn
			dec(&d, coded, func() string { return string(d) }, s, false)
			if rejected {
				dec(&d, s, func() string { return string(d) }, "", true)
			}
		case 3:
			enc(onlyMar(s), coded, s == "bad")
			var d onlyMar
			dec(&d, s, func() string { return string(d) }, s, false)
		case 4:
			x := new(big.Int).Lsh(big.NewInt(gen.Int64(t.T, "big")), uint(gen.Int(t.T, 0, 100, "shift")))
			enc(*x, x.String(), false)
			enc(x, x.String(), false)
			var d big.Int
			if err := textcoder.Unmarshal(x.String(), &d); err != nil || d.Cmp(x) != 0 {
				t.Fatalf("decoding %v gave %v, %v", x, &d, err)
			}
		default:
			// A pointer to a value with a codec of its own encodes by its
			// methods too, since the pointer type has them.
			v := ptrRecv(s)
			enc(&v, coded, s == "bad")
			w := valRecv{s}
			enc(&w, coded, s == "bad")
		}
	})
}

func TestUncodable(t *testing.T) {
	vals := []interface{}{struct{ A int }{}, []int{1}, map[string]int{}, complex(1, 2), complex64(1), uintptr(1), [2]int{}, func() {}, make(chan int), new(*int)}
	pbt.Check(t, 400, func(t *pbt.T) {
		v := vals[gen.Int(t.T, 0, len(vals)-1, "v")]
		s := gen.Text(t.T, 5, "s")
		t.Case(true, fmt.Sprintf("%T %q", v, s))
		if got, err := textcoder.Marshal(v); err == nil {
			t.Fatalf("encoding %T gave %q", v, got)
		}
		dst := reflect.New(reflect.TypeOf(v)).Interface()
		if err := textcoder.Unmarshal(s, dst); err == nil {
			t.Fatalf("decoding %q into %T succeeded", s, dst)
		}
		// A destination that is not a pointer.
		if err := textcoder.Unmarshal("1", 5); err == nil {
			t.Fatalf("decoding into a non-pointer succeeded")
		}
		r := textcoder.NewRegistry()
		typ := types[gen.Int(t.T, 0, len(types)-1, "type")]
		if r.GetCoder(typ) != nil || r.GetEncoder(typ) != nil || r.GetDecoder(typ) != nil {
			t.Fatalf("an empty registry has a codec for %v", typ)
		}
	})
}
