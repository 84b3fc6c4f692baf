package c11

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/google/xtoproto/textcoder"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "histories of Register (valid in all four signature combinations, and invalid), RegisterBasicTypes, GetCoder/GetEncoder/GetDecoder, Marshal/Unmarshal over two private registries and the default one and 12 types; function types assembled from parts; trees of contexts; non-trivial: the history registers a type at least twice or looks a type up before and after registering it; distinct by history")
}

type plain struct{ A string }
type namedStr string
type namedInt int16
type textBoth struct{ s string }

func (v textBoth) MarshalText() ([]byte, error)  { return []byte("<" + v.s + ">"), nil }
func (v *textBoth) UnmarshalText(b []byte) error { v.s = "un:" + string(b); return nil }

type textStr string

func (v textStr) MarshalText() ([]byte, error)  { return []byte("<" + string(v) + ">"), nil }
func (v *textStr) UnmarshalText(b []byte) error { *v = textStr("un:" + string(b)); return nil }

type onlyUn string

func (v *onlyUn) UnmarshalText(b []byte) error { *v = onlyUn("un:" + string(b)); return nil }

type onlyMar string

func (v onlyMar) MarshalText() ([]byte, error) { return []byte("<" + string(v) + ">"), nil }

type iface interface{ M() }

type typeInfo struct {
	t          reflect.Type
	basic      reflect.Type // its basic kind's type, if a string kind
	mar, un    bool
	mk         func(s string) interface{}
	get        func(p interface{}) string
	registered bool
}

var stringT = reflect.TypeOf("")

var types = []*typeInfo{
	{t: stringT, basic: stringT, mk: func(s string) interface{} { return s }, get: func(p interface{}) string { return *p.(*string) }},
	{t: reflect.TypeOf(namedStr("")), basic: stringT, mk: func(s string) interface{} { return namedStr(s) }, get: func(p interface{}) string { return string(*p.(*namedStr)) }},
	{t: reflect.TypeOf(plain{}), mk: func(s string) interface{} { return plain{s} }, get: func(p interface{}) string { return p.(*plain).A }},
	{t: reflect.TypeOf(&plain{}), mk: func(s string) interface{} { return &plain{s} }, get: func(p interface{}) string {
		if *p.(**plain) == nil {
			return ""
		}
		return (*p.(**plain)).A
	}},
	{t: reflect.TypeOf([]string{}), mk: func(s string) interface{} { return []string{s} }, get: func(p interface{}) string { return strings.Join(*p.(*[]string), "") }},
	{t: reflect.TypeOf(map[string]int{}), mk: func(s string) interface{} { return map[string]int{s: 1} }, get: func(p interface{}) string {
		for k := range *p.(*map[string]int) {
			return k
		}
		return ""
	}},
	{t: reflect.TypeOf(textBoth{}), mar: true, un: true, mk: func(s string) interface{} { return textBoth{s} }, get: func(p interface{}) string { return p.(*textBoth).s }},
	{t: reflect.TypeOf(textStr("")), basic: stringT, mar: true, un: true, mk: func(s string) interface{} { return textStr(s) }, get: func(p interface{}) string { return string(*p.(*textStr)) }},
	{t: reflect.TypeOf(onlyUn("")), basic: stringT, un: true, mk: func(s string) interface{} { return onlyUn(s) }, get: func(p interface{}) string { return string(*p.(*onlyUn)) }},
	{t: reflect.TypeOf(onlyMar("")), basic: stringT, mar: true, mk: func(s string) interface{} { return onlyMar(s) }, get: func(p interface{}) string { return string(*p.(*onlyMar)) }},
}

var (
	ctxT = reflect.TypeOf(&textcoder.Context{})
	errT = reflect.TypeOf((*error)(nil)).Elem()
)

// call is what a registered codec saw.
type call struct {
	id   int
	ctx  *textcoder.Context
	text string
}

type world struct {
	last *call
	err  map[int]error // codec id -> error it returns
}

// encoder makes a codec half for ti that writes "id:value".
func (w *world) encoder(ti *typeInfo, id int, withCtx bool, fails error) interface{} {
	in := []reflect.Type{ti.t}
	if withCtx {
		in = []reflect.Type{ctxT, ti.t}
	}
	ft := reflect.FuncOf(in, []reflect.Type{stringT, errT}, false)
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		c := &call{id: id}
		if withCtx {
			c.ctx, _ = args[0].Interface().(*textcoder.Context)
		}
		w.last = c
		p := reflect.New(ti.t)
		p.Elem().Set(args[len(args)-1])
		ev := reflect.Zero(errT)
		if fails != nil {
			ev = reflect.ValueOf(&fails).Elem()
		}
		return []reflect.Value{reflect.ValueOf(fmt.Sprintf("%d:%s", id, ti.get(p.Interface()))), ev}
	}).Interface()
}

// decoder makes the other half: it stores "id!text".
func (w *world) decoder(ti *typeInfo, id int, withCtx bool, fails error) interface{} {
	in := []reflect.Type{stringT, reflect.PtrTo(ti.t)}
	if withCtx {
		in = []reflect.Type{ctxT, stringT, reflect.PtrTo(ti.t)}
	}
	ft := reflect.FuncOf(in, []reflect.Type{errT}, false)
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		text := args[len(args)-2].String()
		c := &call{id: id, text: text}
		if withCtx {
			c.ctx, _ = args[0].Interface().(*textcoder.Context)
		}
		w.last = c
		ev := reflect.Zero(errT)
		if fails != nil {
			ev = reflect.ValueOf(&fails).Elem()
		} else {
			args[len(args)-1].Elem().Set(reflect.ValueOf(ti.mk(fmt.Sprintf("%d!%s", id, text))))
		}
		return []reflect.Value{ev}
	}).Interface()
}

type codec struct {
	id             int
	encCtx, decCtx bool
	encErr, decErr error
}

type regModel struct {
	name   string
	r      *textcoder.Registry
	basic  bool
	codecs map[*typeInfo]*codec
}

// what is the resolution of a look-up
type kind int

const (
	none kind = iota
	explicit
	method
	builtin   // the built-in string codec
	viaString // a custom codec registered for string
)

func (m *regModel) stringKind() (kind, *codec) {
	if c := m.codecs[types[0]]; c != nil {
		return viaString, c
	}
	if m.basic {
		return builtin, nil
	}
	return none, nil
}

func (m *regModel) lookup(ti *typeInfo, hasMethod bool) (kind, *codec) {
	if c := m.codecs[ti]; c != nil {
		return explicit, c
	}
	if ti == types[0] {
		return m.stringKind()
	}
	if hasMethod {
		return method, nil
	}
	if ti.basic != nil {
		return m.stringKind()
	}
	return none, nil
}

func (w *world) checkEncode(t *pbt.T, what string, k kind, c *codec, ti *typeInfo, s string, ctx *textcoder.Context, enc func(v interface{}) (string, error)) {
	w.last = nil
	got, err := enc(ti.mk(s))
	want := ""
	var wantErr error
	switch k {
	case explicit, viaString:
		want, wantErr = fmt.Sprintf("%d:%s", c.id, s), c.encErr
		if w.last == nil || w.last.id != c.id {
			t.Fatalf("%s encode of %v: codec %d was not the one called (%+v)", what, ti.t, c.id, w.last)
		}
		if c.encCtx {
			sameCtx(t, what, w.last.ctx, ctx)
		}
	case method:
		want = "<" + s + ">"
	case builtin:
		want = s
	}
	if wantErr != nil {
		if !errors.Is(err, wantErr) {
			t.Fatalf("%s encode of %v: error %v, want the codec's %v", what, ti.t, err, wantErr)
		}
		return
	}
	if err != nil || got != want {
		t.Fatalf("%s encode of %v %q gave %q, %v; want %q", what, ti.t, s, got, err, want)
	}
}

func (w *world) checkDecode(t *pbt.T, what string, k kind, c *codec, ti *typeInfo, s string, ctx *textcoder.Context, dec func(dst interface{}) error) {
	w.last = nil
	dst := reflect.New(ti.t).Interface()
	err := dec(dst)
	want := ""
	var wantErr error
	switch k {
	case explicit, viaString:
		want, wantErr = fmt.Sprintf("%d!%s", c.id, s), c.decErr
		if w.last == nil || w.last.id != c.id || w.last.text != s {
			t.Fatalf("%s decode of %v: codec %d was not the one called (%+v)", what, ti.t, c.id, w.last)
		}
		if c.decCtx {
			sameCtx(t, what, w.last.ctx, ctx)
		}
	case method:
		want = "un:" + s
	case builtin:
		want = s
	}
	if wantErr != nil {
		if !errors.Is(err, wantErr) {
			t.Fatalf("%s decode of %v: error %v, want the codec's %v", what, ti.t, err, wantErr)
		}
		return
	}
	if err != nil || ti.get(dst) != want {
		t.Fatalf("%s decode of %q into %v gave %q, %v; want %q", what, s, ti.t, ti.get(dst), err, want)
	}
}

type key string

// sameCtx: the codec must see the values and the registry of the caller's
// context (nil when the caller gave none).
func sameCtx(t *pbt.T, what string, got, want *textcoder.Context) {
	if want == nil {
		if got == nil || got.Registry() == nil {
			t.Fatalf("%s: the codec got no context", what)
		}
		return
	}
	if got == nil || got.Registry() != want.Registry() {
		t.Fatalf("%s: the codec got another registry", what)
	}
	for _, k := range []key{"a", "b"} {
		gv, gok := got.Value(k)
		wv, wok := want.Value(k)
		if gok != wok || gv != wv {
			t.Fatalf("%s: the codec's context has %v=%v,%v; the caller's has %v,%v", what, k, gv, gok, wv, wok)
		}
	}
}

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	return rv.Kind() == reflect.Ptr && rv.IsNil()
}

type handle struct {
	m   *regModel
	ti  *typeInfo
	enc textcoder.Encoder
	dec textcoder.Decoder
	k   kind
}

func TestHistories(t *testing.T) {
	pbt.Check(t, 4000, func(t *pbt.T) {
		w := &world{}
		a := &regModel{name: "A", r: textcoder.NewRegistry(), codecs: map[*typeInfo]*codec{}}
		b := &regModel{name: "B", r: textcoder.NewRegistry(), codecs: map[*typeInfo]*codec{}}
		regs := []*regModel{a, b}
		var handles []*handle
		next := 1
		var hist []string
		steps := gen.Int(t.T, 3, 25, "steps")
		regCount := map[string]int{}
		nontrivial := false
		drawCtx := func(m *regModel) *textcoder.Context {
			ctx := m.r.NewContext()
			if gen.Bool(t.T, "ctx.a") {
				ctx = ctx.WithValue(key("a"), gen.Int(t.T, 0, 3, "ctx.av"))
			}
			if gen.Bool(t.T, "ctx.b") {
				ctx = ctx.WithValue(key("b"), gen.Int(t.T, 0, 3, "ctx.bv"))
			}
			return ctx
		}
		for i := 0; i < steps; i++ {
			m := regs[gen.Int(t.T, 0, 1, "reg")]
			ti := types[gen.Int(t.T, 0, len(types)-1, "type")]
			switch op := gen.Int(t.T, 0, 9, "op"); op {
			case 0, 1, 2:
				c := &codec{id: next, encCtx: gen.Bool(t.T, "encctx"), decCtx: gen.Bool(t.T, "decctx")}
				next++
				if gen.OneIn(t.T, 5, "encerr") {
					c.encErr = fmt.Errorf("enc %d", c.id)
				}
				if gen.OneIn(t.T, 5, "decerr") {
					c.decErr = fmt.Errorf("dec %d", c.id)
				}
				enc, dec := w.encoder(ti, c.id, c.encCtx, c.encErr), w.decoder(ti, c.id, c.decCtx, c.decErr)
				hist = append(hist, fmt.Sprintf("%s.Register(%v, #%d)", m.name, ti.t, c.id))
				if bad := gen.Int(t.T, 0, 5, "bad"); bad > 2 {
					if err := m.r.Register(ti.t, enc, dec); err != nil {
						t.Fatalf("Register(%v, %T, %T): %v", ti.t, enc, dec, err)
					}
					m.codecs[ti] = c
					k := m.name + ti.t.String()
					regCount[k]++
					if regCount[k] > 1 {
						nontrivial = true
					}
				} else {
					// A refused registration: nothing changes.
					other := types[gen.Int(t.T, 0, len(types)-1, "other")]
					for other == ti {
						other = types[(indexOf(other)+1)%len(types)]
					}
					switch bad {
					case 0:
						enc = nil
					case 1:
						dec = w.decoder(other, c.id, c.decCtx, nil)
					default:
						enc = w.encoder(other, c.id, c.encCtx, nil)
					}
					hist[len(hist)-1] += "(bad)"
					if err := m.r.Register(ti.t, enc, dec); err == nil {
						t.Fatalf("Register(%v, %T, %T) succeeded", ti.t, enc, dec)
					}
				}
			case 3:
				hist = append(hist, m.name+".RegisterBasicTypes")
				if err := textcoder.RegisterBasicTypes(m.r); err != nil {
					t.Fatalf("RegisterBasicTypes: %v", err)
				}
				m.basic = true
				delete(m.codecs, types[0])
			case 4, 5, 6, 7:
				hist = append(hist, fmt.Sprintf("%s look up %v", m.name, ti.t))
				s := gen.Text(t.T, 4, "s")
				ctx := drawCtx(m)
				ek, ec := m.lookup(ti, ti.mar)
				e := m.r.GetEncoder(ti.t)
				if isNil(e) != (ek == none) {
					t.Fatalf("%v: GetEncoder(%v) = %v, want kind %d", hist, ti.t, e, ek)
				}
				if ek != none {
					w.checkEncode(t, "GetEncoder", ek, ec, ti, s, ctx, func(v interface{}) (string, error) { return e.EncodeText(ctx, v) })
				}
				dk, dc := m.lookup(ti, ti.un)
				d := m.r.GetDecoder(ti.t)
				if isNil(d) != (dk == none) {
					t.Fatalf("%v: GetDecoder(%v) = %v, want kind %d", hist, ti.t, d, dk)
				}
				if dk != none {
					w.checkDecode(t, "GetDecoder", dk, dc, ti, s, ctx, func(dst interface{}) error { return d.DecodeText(ctx, s, dst) })
				}
				ck, cc := m.lookup(ti, ti.un && ti.mar)
				c := m.r.GetCoder(ti.t)
				if isNil(c) != (ck == none) {
					t.Fatalf("%v: GetCoder(%v) = %v, want kind %d", hist, ti.t, c, ck)
				}
				if ck != none {
					w.checkEncode(t, "GetCoder", ck, cc, ti, s, ctx, func(v interface{}) (string, error) { return c.EncodeText(ctx, v) })
					w.checkDecode(t, "GetCoder", ck, cc, ti, s, ctx, func(dst interface{}) error { return c.DecodeText(ctx, s, dst) })
				}
				if ek == explicit || ek == viaString && ti == types[0] || ek == builtin && ti == types[0] {
					handles = append(handles, &handle{m: m, ti: ti, enc: e, dec: d})
				}
			default:
				if len(handles) == 0 {
					continue
				}
				// A coder obtained earlier for a registered type follows later
				// registrations of that type.
				h := handles[gen.Int(t.T, 0, len(handles)-1, "handle")]
				hist = append(hist, fmt.Sprintf("%s use old coder of %v", h.m.name, h.ti.t))
				s := gen.Text(t.T, 4, "s")
				ctx := drawCtx(h.m)
				ek, ec := h.m.lookup(h.ti, h.ti.mar)
				w.checkEncode(t, "old encoder", ek, ec, h.ti, s, ctx, func(v interface{}) (string, error) { return h.enc.EncodeText(ctx, v) })
				dk, dc := h.m.lookup(h.ti, h.ti.un)
				w.checkDecode(t, "old decoder", dk, dc, h.ti, s, ctx, func(dst interface{}) error { return h.dec.DecodeText(ctx, s, dst) })
			}
		}
		t.Case(nontrivial, strings.Join(hist, "; "))
		if len(handles) > 0 {
			t.Class("with-old-coders")
		}
	})
}

func indexOf(ti *typeInfo) int {
	for i, x := range types {
		if x == ti {
			return i
		}
	}
	return 0
}

// The package-level functions use the default registry. It cannot be reset, so
// each case starts by registering every type it uses afresh.
func TestDefaultRegistry(t *testing.T) {
	used := []int{1, 2, 3, 4, 5, 7}
	pbt.Check(t, 2500, func(t *pbt.T) {
		if err := textcoder.RegisterBasicTypes(textcoder.DefaultRegistry()); err != nil {
			t.Fatalf("%v", err)
		}
		w := &world{}
		m := &regModel{name: "default", r: textcoder.DefaultRegistry(), basic: true, codecs: map[*typeInfo]*codec{}}
		other := textcoder.NewRegistry()
		next := 1
		var hist []string
		register := func(ti *typeInfo) {
			c := &codec{id: next, encCtx: gen.Bool(t.T, "encctx"), decCtx: gen.Bool(t.T, "decctx")}
			next++
			enc, dec := w.encoder(ti, c.id, c.encCtx, nil), w.decoder(ti, c.id, c.decCtx, nil)
			hist = append(hist, fmt.Sprintf("Register(%v, #%d)", ti.t, c.id))
			if gen.Bool(t.T, "must") {
				textcoder.MustRegister(ti.t, enc, dec)
			} else if err := textcoder.Register(ti.t, enc, dec); err != nil {
				t.Fatalf("Register(%v): %v", ti.t, err)
			}
			m.codecs[ti] = c
		}
		for _, i := range used {
			register(types[i])
		}
		for i, n := 0, gen.Int(t.T, 1, 12, "steps"); i < n; i++ {
			ti := types[used[gen.Int(t.T, 0, len(used)-1, "type")]]
			switch gen.Int(t.T, 0, 5, "op") {
			case 0:
				register(ti)
			case 1:
				// Registering elsewhere must not matter here.
				other.Register(ti.t, w.encoder(ti, 9999, false, nil), w.decoder(ti, 9999, false, nil))
				hist = append(hist, fmt.Sprintf("other.Register(%v)", ti.t))
			case 2:
				func() {
					defer func() {
						if recover() == nil {
							t.Fatalf("MustRegister of a nil decoder did not panic")
						}
					}()
					textcoder.MustRegister(ti.t, w.encoder(ti, 9998, false, nil), nil)
				}()
			default:
				hist = append(hist, fmt.Sprintf("code %v", ti.t))
				s := gen.Text(t.T, 4, "s")
				k, c := m.lookup(ti, true)
				ctx := textcoder.NewContext().WithValue(key("a"), gen.Int(t.T, 0, 9, "a"))
				w.checkEncode(t, "Marshal", k, c, ti, s, nil, func(v interface{}) (string, error) { return textcoder.Marshal(v) })
				w.checkEncode(t, "MarshalContext", k, c, ti, s, ctx, func(v interface{}) (string, error) { return textcoder.MarshalContext(ctx, v) })
				w.checkDecode(t, "Unmarshal", k, c, ti, s, nil, func(dst interface{}) error { return textcoder.Unmarshal(s, dst) })
				w.checkDecode(t, "UnmarshalContext", k, c, ti, s, ctx, func(dst interface{}) error { return textcoder.UnmarshalContext(ctx, s, dst) })
			}
		}
		t.Case(len(hist) > 8, strings.Join(hist, "; "))
	})
}

// Function types built from parts: accepted iff they are a documented form.
func TestSignatures(t *testing.T) {
	ifaceT := reflect.TypeOf((*interface{})(nil)).Elem()
	pbt.Check(t, 15000, func(t *pbt.T) {
		ti := types[gen.Int(t.T, 0, len(types)-1, "type")]
		parts := []reflect.Type{ctxT, ti.t, reflect.PtrTo(ti.t), stringT, errT, ifaceT, reflect.TypeOf(0), ctxT.Elem(), types[(indexOf(ti)+1)%len(types)].t}
		draw := func(label string, good [][]reflect.Type, goodOut []reflect.Type) reflect.Type {
			in := append([]reflect.Type{}, good[gen.Int(t.T, 0, len(good)-1, label+".form")]...)
			out := append([]reflect.Type{}, goodOut...)
			for i, n := 0, gen.Int(t.T, 0, 2, label+".edits"); i < n; i++ {
				edit := func(l []reflect.Type) []reflect.Type {
					p := parts[gen.Int(t.T, 0, len(parts)-1, label+".part")]
					switch gen.Int(t.T, 0, 2, label+".edit") {
					case 0:
						return append(l, p)
					case 1:
						if len(l) > 0 {
							return l[:len(l)-1]
						}
					default:
						if len(l) > 0 {
							l[gen.Int(t.T, 0, len(l)-1, label+".at")] = p
						}
					}
					return l
				}
				if gen.Bool(t.T, label+".inout") {
					in = edit(in)
				} else {
					out = edit(out)
				}
			}
			return reflect.FuncOf(in, out, false)
		}
		eq := func(ft reflect.Type, in, out []reflect.Type) bool { return ft == reflect.FuncOf(in, out, false) }
		encIn := [][]reflect.Type{{ti.t}, {ctxT, ti.t}}
		encOut := []reflect.Type{stringT, errT}
		decIn := [][]reflect.Type{{stringT, reflect.PtrTo(ti.t)}, {ctxT, stringT, reflect.PtrTo(ti.t)}}
		decOut := []reflect.Type{errT}
		et, dt := draw("enc", encIn, encOut), draw("dec", decIn, decOut)
		encOK := eq(et, encIn[0], encOut) || eq(et, encIn[1], encOut)
		decOK := eq(dt, decIn[0], decOut) || eq(dt, decIn[1], decOut)
		t.Case(!encOK || !decOK, fmt.Sprintf("Register(%v, %v, %v)", ti.t, et, dt))
		impl := func(ft reflect.Type) interface{} {
			return reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value { panic("called") }).Interface()
		}
		r := textcoder.NewRegistry()
		err := r.Register(ti.t, impl(et), impl(dt))
		if (err == nil) != (encOK && decOK) {
			t.Fatalf("Register(%v, %v, %v) = %v; documented forms: encoder %v, decoder %v", ti.t, et, dt, err, encOK, decOK)
		}
		if err != nil && ti.basic == nil && !ti.mar && !ti.un && r.GetCoder(ti.t) != nil {
			t.Fatalf("a refused registration of %v left a coder", ti.t)
		}
		for _, bad := range []interface{}{nil, 1, "f", &struct{}{}} {
			if r.Register(ti.t, bad, impl(dt)) == nil || r.Register(ti.t, impl(et), bad) == nil {
				t.Fatalf("Register(%v) accepted %v as a function", ti.t, bad)
			}
		}
		t.Class(fmt.Sprintf("ok=%v", encOK && decOK))
	})
}

// Contexts form a tree of derivations; each keeps exactly the values put on
// its own path from the root.
type (
	heldInt  int16
	heldStr  string
	heldBool bool
	heldF    float32
	ptrMar   struct{ s string }
)

func (v *ptrMar) MarshalText() ([]byte, error) { return []byte("<" + v.s + ">"), nil }
func (v *ptrMar) UnmarshalText(b []byte) error { v.s = string(b); return nil }

// Coders that were looked up once serve several goroutines at a time, each call
// on its own.
func TestHeldCoders(t *testing.T) {
	types := []reflect.Type{reflect.TypeOf(heldInt(0)), reflect.TypeOf(heldStr("")), reflect.TypeOf(heldBool(false)), reflect.TypeOf(heldF(0)), reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(ptrMar{})}
	text := func(typ reflect.Type, k int) (in string, val interface{}, out string) {
		switch typ {
		case types[0]:
			return fmt.Sprint(k), heldInt(k), fmt.Sprint(k)
		case types[1]:
			return fmt.Sprint("s", k), heldStr(fmt.Sprint("s", k)), fmt.Sprint("s", k)
		case types[2]:
			return []string{"no", "YES"}[k%2], heldBool(k%2 == 1), []string{"false", "true"}[k%2]
		case types[3]:
			return fmt.Sprintf("%d.5", k), heldF(float32(k) + 0.5), fmt.Sprintf("%d.500000", k)
		case types[4]:
			return fmt.Sprint(k), k, fmt.Sprint(k)
		case types[5]:
			return fmt.Sprint("s", k), fmt.Sprint("s", k), fmt.Sprint("s", k)
		}
		return fmt.Sprint(k), ptrMar{fmt.Sprint(k)}, fmt.Sprintf("<%d>", k)
	}
	pbt.Check(t, 150, func(t *pbt.T) {
		typ := types[gen.Int(t.T, 0, len(types)-1, "type")]
		ng, n := gen.Int(t.T, 1, 5, "goroutines"), gen.Int(t.T, 1, 300, "calls")
		withBad := gen.Bool(t.T, "bad")
		t.Case(ng > 1, fmt.Sprintf("%v: %d goroutines, %d calls", typ, ng, n))
		r := textcoder.DefaultRegistry()
		if gen.Bool(t.T, "private") {
			r = textcoder.NewRegistry()
			if err := textcoder.RegisterBasicTypes(r); err != nil {
				t.Fatalf("RegisterBasicTypes: %v", err)
			}
		}
		dec, enc := r.GetDecoder(typ), r.GetEncoder(typ)
		if dec == nil || enc == nil {
			t.Fatalf("no coder for %v", typ)
		}
		ctx := r.NewContext()
		errs := make([]string, ng)
		var wg sync.WaitGroup
		for g := 0; g < ng; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < n && errs[g] == ""; i++ {
					in, val, out := text(typ, g*1000+i)
					dst := reflect.New(typ)
					if err := dec.DecodeText(ctx, in, dst.Interface()); err != nil || dst.Elem().Interface() != val {
						errs[g] = fmt.Sprintf("%q decodes to %v, %v; want %v", in, dst.Elem(), err, val)
						return
					}
					if s, err := enc.EncodeText(ctx, val); err != nil || s != out {
						errs[g] = fmt.Sprintf("%v encodes as %q, %v; want %q", val, s, err, out)
						return
					}
					if withBad && typ.Kind() != reflect.String && typ.Kind() != reflect.Struct {
						if err := dec.DecodeText(ctx, "?", reflect.New(typ).Interface()); err == nil {
							errs[g] = `"?" was decoded`
						}
					}
				}
			}(g)
		}
		wg.Wait()
		for g, e := range errs {
			if e != "" {
				t.Fatalf("goroutine %d: %s", g, e)
			}
		}
	})
}

func TestContexts(t *testing.T) {
	pbt.Check(t, 4000, func(t *pbt.T) {
		type node struct {
			c    *textcoder.Context
			r    *textcoder.Registry
			vals map[interface{}]interface{}
		}
		r := textcoder.NewRegistry()
		nodes := []*node{
			{textcoder.NewContext(), textcoder.DefaultRegistry(), map[interface{}]interface{}{}},
			{r.NewContext(), r, map[interface{}]interface{}{}},
		}
		var hist []string
		if gen.OneIn(t.T, 8, "full") {
			// A context that holds many values already.
			p := nodes[gen.Int(t.T, 0, 1, "root")]
			c, n := p.c, gen.Int(t.T, 5, 70, "values")
			for i := 0; i < n; i++ {
				c = c.WithValue(i, i)
			}
			hist = append(hist, fmt.Sprintf("2 holds %d values", n))
			nodes = append(nodes, &node{c, p.r, map[interface{}]interface{}{}})
		}
		for i, n := 0, gen.Int(t.T, 1, 15, "n"); i < n; i++ {
			pi := gen.Int(t.T, 0, len(nodes)-1, "parent")
			p := nodes[pi]
			var k interface{} = key(gen.Pick(t.T, "key", "a", "b", "c"))
			if gen.OneIn(t.T, 4, "plainkey") {
				k = string(k.(key)) // equal text, another type: another key
			}
			v := gen.Int(t.T, 0, 5, "v")
			hist = append(hist, fmt.Sprintf("%d.WithValue(%T %v, %d)", pi, k, k, v))
			c := &node{p.c.WithValue(k, v), p.r, map[interface{}]interface{}{}}
			for kk, vv := range p.vals {
				c.vals[kk] = vv
			}
			c.vals[k] = v
			nodes = append(nodes, c)
			if gen.OneIn(t.T, 6, "registrykey") {
				// A value under any key, this one included, is the derived context's own.
				// (What Registry gives for it is not looked at.)
				p.c.WithValue("registry", gen.Pick(t.T, "regval", interface{}(textcoder.NewRegistry()), "text"))
				hist = append(hist, fmt.Sprintf("%d.WithValue(registry)", pi))
			}
			for j, nd := range nodes {
				if nd.c.Registry() != nd.r {
					t.Fatalf("%v: context %d has another registry", hist, j)
				}
				for _, kk := range []interface{}{key("a"), key("b"), key("c"), "a", "b", "c"} {
					got, ok := nd.c.Value(kk)
					want, wok := nd.vals[kk]
					if ok != wok || got != want {
						t.Fatalf("%v: context %d has %T %v = %v, %v; want %v, %v", hist, j, kk, kk, got, ok, want, wok)
					}
				}
			}
		}
		t.Case(len(hist) > 2, strings.Join(hist, "; "))
	})
}
