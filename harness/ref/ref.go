// Package ref holds reference models shared by several checks.
package ref

import (
	"math"
	"reflect"
	"strconv"
)

// BoolWords is the documented list of boolean texts.
var BoolWords = map[string]bool{"true": true, "on": true, "yes": true, "1": true, "false": false, "off": false, "no": false, "0": false}

// LowerASCII lower-cases ASCII letters only.
func LowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Decode is the reference decoder of the basic kinds.
func Decode(typ reflect.Type, s string) (reflect.Value, bool) {
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, err := strconv.ParseInt(s, 10, typ.Bits())
		if err != nil {
			return v, false
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, err := strconv.ParseUint(s, 10, typ.Bits())
		if err != nil {
			return v, false
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		x, err := strconv.ParseFloat(s, typ.Bits())
		if err != nil {
			return v, false
		}
		v.SetFloat(x)
	case reflect.Bool:
		x, ok := BoolWords[LowerASCII(s)]
		if !ok {
			return v, false
		}
		v.SetBool(x)
	case reflect.String:
		v.SetString(s)
	default:
		panic("HARNESS: no reference decoder for " + typ.String())
	}
	return v, true
}

// Same compares two values of basic kinds, NaN equal to NaN, zeros by sign.
func Same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		return math.IsNaN(x) && math.IsNaN(y) || math.Float64bits(x) == math.Float64bits(y)
	}
	return a.Interface() == b.Interface()
}
