package ics

import (
	"fmt"
	"math"
	"net/url"
	"reflect"
	"strings"
	"time"
)

// Native versions of the harness interface: inputs come from a recorded tape.

type vStop struct{ status, msg string }

var (
	vTape   []uint64
	vPos    int
	vPrm    []int
	vObs    []string
	vCovers []string
)

func vNext() uint64 {
	if vPos >= len(vTape) {
		panic(vStop{"tape", "tape exhausted"})
	}
	v := vTape[vPos]
	vPos++
	return v
}

func vByte() byte         { return byte(vNext()) }
func vBool() bool         { return vNext() == 1 }
func vUint64() uint64     { return vNext() }
func vInt(lo, hi int) int { return int(int64(vNext())) }
func vChoice(n int) int   { return int(vNext()) }
func vAssume(c bool) {
	if !c {
		panic(vStop{"assume", ""})
	}
}
func vAssert(c bool, msg string) {
	if !c {
		panic(vStop{"assert", msg})
	}
}
func vCover(name string) { vCovers = append(vCovers, name) }
func vObserve(name string, v any) {
	switch v := v.(type) {
	case string:
		vObs = append(vObs, fmt.Sprintf("%s=%q", name, v))
	case []byte:
		vObs = append(vObs, fmt.Sprintf("%s=%q", name, string(v)))
	default:
		vObs = append(vObs, fmt.Sprintf("%s=%v", name, v))
	}
}
func vParam(i int) int {
	if i < len(vPrm) {
		return vPrm[i]
	}
	return 0
}
func vFork(c bool) bool   { return c }
func vConcrete(n int) int { return n }

func vEqual(a, b any) bool {
	return vDeep(reflect.ValueOf(a), reflect.ValueOf(b))
}

// vCopy copies a value with everything reachable from it, other than locations of times and
// what stands behind fields that are not exported.
func vCopy(a any) any { return vClone(reflect.ValueOf(a)).Interface() }

func vClone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	if _, ok := vTime(v); ok {
		return c
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && v.Type() != reflect.TypeOf(time.UTC) {
			c.Set(vClone(v.Elem()).Addr())
		}
	case reflect.Interface:
		if !v.IsNil() {
			c.Set(vClone(v.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				c.Field(i).Set(vClone(v.Field(i)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(vClone(v.Index(i)))
		}
	}
	return c
}

// vShares tells whether two values share memory.
func vShares(a, b any) bool {
	seen := map[uintptr]bool{}
	vCells(reflect.ValueOf(a), func(p uintptr) { seen[p] = true })
	r := false
	vCells(reflect.ValueOf(b), func(p uintptr) { r = r || seen[p] })
	return r
}

func vCells(v reflect.Value, visit func(uintptr)) {
	if !v.IsValid() {
		return
	}
	if _, ok := vTime(v); ok {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && v.Type() != reflect.TypeOf(time.UTC) {
			if v.Elem().Type().Size() > 0 {
				visit(v.Pointer())
			}
			vCells(v.Elem(), visit)
		}
	case reflect.Interface:
		vCells(v.Elem(), visit)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vCells(v.Field(i), visit)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			visit(v.Index(i).UnsafeAddr())
			vCells(v.Index(i), visit)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vCells(v.Index(i), visit)
		}
	}
}

// vURLs returns the URLs that a value holds.
func vURLs(a any) (urls []*url.URL) {
	vPlaces(reflect.ValueOf(a), func(v reflect.Value) {
		if u, ok := v.Addr().Interface().(*url.URL); ok {
			urls = append(urls, u)
		}
	})
	return urls
}

// vTidy drops empty parameters of a value.
func vTidy(a any) {
	vPlaces(reflect.ValueOf(a), func(v reflect.Value) {
		if v.Kind() == reflect.Pointer && !v.IsNil() && (v.Elem().Kind() == reflect.String || v.Elem().Kind() == reflect.Struct) && v.Elem().IsZero() && strings.HasPrefix(v.Elem().Type().Name(), "Param") {
			v.SetZero()
		}
	})
}

func vPlaces(v reflect.Value, visit func(reflect.Value)) {
	if !v.IsValid() {
		return
	}
	if v.CanAddr() && v.CanSet() {
		visit(v)
	}
	if _, ok := vTime(v); ok {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.Type() != reflect.TypeOf(time.UTC) {
			vPlaces(v.Elem(), visit)
		}
	case reflect.Interface:
		vPlaces(v.Elem(), visit)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vPlaces(v.Field(i), visit)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vPlaces(v.Index(i), visit)
		}
	}
}

func vZone(l *time.Location) string {
	switch l {
	case time.UTC:
		return "UTC"
	case time.Local:
		return "Local"
	}
	return l.String()
}

func vDeep(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if t, ok := vTime(a); ok {
		u, _ := vTime(b)
		return t.Year() == u.Year() && t.Month() == u.Month() && t.Day() == u.Day() && t.Hour() == u.Hour() &&
			t.Minute() == u.Minute() && t.Second() == u.Second() && t.Nanosecond() == u.Nanosecond() && vZone(t.Location()) == vZone(u.Location())
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return vDeep(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !vDeep(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !vDeep(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || math.IsNaN(a.Float()) && math.IsNaN(b.Float())
	}
	panic("vEqual: kind " + a.Kind().String())
}

func vTime(v reflect.Value) (t time.Time, ok bool) {
	if v.Type() == reflect.TypeOf(t) {
		// the value may come from an unexported or embedded field; copy through a fresh one
		if v.CanInterface() {
			return v.Interface().(time.Time), true
		}
	}
	return t, false
}
