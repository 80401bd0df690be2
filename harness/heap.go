package harness

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/mmadfox/go-gpsgen/vshim"
)

// heapKey describes everything reachable from the values, unexported fields
// and sharing included, so that two histories are merged only when the real
// objects they lead to are the same in memory. It relies on no field names:
// fields the code gains or loses are simply part of the key.
func heapKey(vs ...interface{}) string {
	h := &heapWalk{ids: map[unsafe.Pointer]map[reflect.Type]int{}}
	for _, v := range vs {
		h.walk(reflect.ValueOf(v), 0)
		h.b = append(h.b, '\n')
	}
	return string(h.b)
}

type heapWalk struct {
	b   []byte
	ids map[unsafe.Pointer]map[reflect.Type]int
	n   int
}

var heapSkip = map[reflect.Type]bool{}

// opaque types: locks (free between calls) and the bookkeeping of messages
func skipType(t reflect.Type) bool {
	s, ok := heapSkip[t]
	if !ok {
		p := t.PkgPath()
		s = p == "sync" || p == "time" && t.Name() != "Duration" && t.Name() != "Time" || p == "context" || strings.HasSuffix(p, "/vshim") ||
			strings.HasPrefix(p, "google.golang.org/protobuf")
		heapSkip[t] = s
	}
	return s
}

// visit reports whether the address was met before.
func (h *heapWalk) visit(p unsafe.Pointer, t reflect.Type) bool {
	m := h.ids[p]
	if m == nil {
		m = map[reflect.Type]int{}
		h.ids[p] = m
	}
	if id, ok := m[t]; ok {
		h.b = append(h.b, '^')
		h.b = strconv.AppendInt(h.b, int64(id), 10)
		return true
	}
	h.n++
	m[t] = h.n
	return false
}

func (h *heapWalk) walk(v reflect.Value, depth int) {
	if !v.IsValid() {
		h.b = append(h.b, 'n')
		return
	}
	if depth > 60 {
		panic("heapKey: too deep")
	}
	t := v.Type()
	if skipType(t) {
		return
	}
	h.b = append(h.b, ' ')
	switch v.Kind() {
	case reflect.Bool:
		h.b = strconv.AppendBool(h.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.b = strconv.AppendInt(h.b, v.Int(), 36)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.b = strconv.AppendUint(h.b, v.Uint(), 36)
	case reflect.Float32, reflect.Float64:
		h.b = strconv.AppendUint(h.b, math.Float64bits(v.Float()), 36)
	case reflect.Complex64, reflect.Complex128:
		h.b = append(h.b, fmt.Sprint(v.Complex())...)
	case reflect.String:
		h.b = strconv.AppendInt(h.b, int64(v.Len()), 10)
		h.b = append(h.b, ':')
		h.b = append(h.b, v.String()...)
	case reflect.Pointer:
		if v.IsNil() {
			h.b = append(h.b, 'n')
			return
		}
		if h.visit(v.UnsafePointer(), t) {
			return
		}
		h.b = append(h.b, '&')
		h.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			h.b = append(h.b, 'n')
			return
		}
		h.b = append(h.b, v.Elem().Type().String()...)
		h.walk(v.Elem(), depth+1)
	case reflect.Slice:
		h.b = append(h.b, '[')
		h.b = strconv.AppendInt(h.b, int64(v.Len()), 10)
		if v.Len() > 0 && h.visit(v.UnsafePointer(), t) {
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			h.b = append(h.b, v.Bytes()...)
			return
		}
		for i := 0; i < v.Len(); i++ {
			h.walk(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.walk(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h.walk(v.Field(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			h.b = append(h.b, 'n')
			return
		}
		if h.visit(v.UnsafePointer(), t) {
			return
		}
		var parts []string
		for it := v.MapRange(); it.Next(); {
			k := &heapWalk{ids: h.ids, n: h.n}
			k.walk(it.Key(), depth+1)
			k.b = append(k.b, '=')
			k.walk(it.Value(), depth+1)
			parts = append(parts, string(k.b))
		}
		sort.Strings(parts)
		h.b = append(h.b, '{')
		h.b = append(h.b, strings.Join(parts, ",")...)
		h.b = append(h.b, '}')
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if v.Kind() != reflect.Func && v.Kind() != reflect.UnsafePointer {
			h.b = strconv.AppendInt(h.b, int64(v.Len()), 10)
		} else if v.Kind() == reflect.Func && v.IsNil() {
			h.b = append(h.b, 'n')
		} else {
			h.b = append(h.b, 'f')
		}
	}
}

// heapOf is the key of a world: its objects and the position of the draws.
func heapOf(w *World) string {
	return heapKey(w.D, w.Pool, w.Sens) + strconv.Itoa(vshim.DrawPos())
}
