// Package foot finds the memory which is reachable from objects.
package foot

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

type span struct {
	lo, hi uintptr
	path   string
}

type walker struct {
	spans []span
	seen  map[key]bool
}

type key struct {
	p uintptr
	t reflect.Type
	n int
}

// Of is the memory which is reachable from an object.
func Of(o interface{}) []span {
	w := &walker{seen: map[key]bool{}}
	w.walk(reflect.ValueOf(o), fmt.Sprintf("%T", o))
	return w.spans
}

func skip(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Func, reflect.Chan, reflect.String, reflect.UnsafePointer, reflect.Uintptr:
		return true
	}
	p := t.PkgPath()
	return p == "sync" || p == "sync/atomic" || p == "reflect" || strings.HasPrefix(p, "internal/")
}

// guarded is a structure with a lock of its own (or atomic fields): what it holds may be written under the lock, and
// whether it is written without it is for the race detector to say.
func guarded(t reflect.Type) bool {
	if t.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i).Type
		for f.Kind() == reflect.Array {
			f = f.Elem()
		}
		e := f
		if e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		if p := e.PkgPath(); p == "sync" || p == "sync/atomic" || guarded(f) {
			return true
		}
	}
	return false
}

// flat types hold no reference.
func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return flat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan, reflect.String, reflect.UnsafePointer:
		return false
	}
	return true
}

func (w *walker) walk(v reflect.Value, path string) {
	if !v.IsValid() || skip(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || skip(v.Type().Elem()) || guarded(v.Type().Elem()) {
			return
		}
		k := key{v.Pointer(), v.Type(), 0}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.mem(v.Pointer(), v.Type().Elem().Size(), path)
		w.walk(v.Elem(), path)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		k := key{v.Pointer(), v.Type(), v.Len()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		if guarded(v.Type().Elem()) {
			return
		}
		w.mem(v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size(), path+"[]")
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), path+"[]")
		}
	case reflect.Array:
		if flat(v.Type()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), path+"[]")
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), path+"."+v.Type().Field(i).Name)
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.walk(v.Elem(), path)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := key{v.Pointer(), v.Type(), 0}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		// the header of a map holds its count
		w.mem(v.Pointer(), 8, path)
		it := v.MapRange()
		for it.Next() {
			w.walk(it.Key(), path+"[key]")
			w.walk(it.Value(), path+"[]")
		}
	}
}

func (w *walker) mem(p, n uintptr, path string) {
	if n > 0 {
		w.spans = append(w.spans, span{p, p + n, path})
	}
}

// Bytes is the number of bytes of spans.
func Bytes(s []span) (n int) {
	s = merge(s)
	for _, x := range s {
		n += int(x.hi - x.lo)
	}
	return
}

func merge(s []span) (o []span) {
	s = append([]span{}, s...)
	sort.Slice(s, func(i, j int) bool { return s[i].lo < s[j].lo || s[i].lo == s[j].lo && s[i].hi > s[j].hi })
	for _, x := range s {
		if len(o) > 0 && x.lo < o[len(o)-1].hi {
			if x.hi > o[len(o)-1].hi {
				// cut, to keep the name of the rest
				x.lo = o[len(o)-1].hi
			} else {
				continue
			}
		}
		o = append(o, x)
	}
	return
}

// Shared is the memory which is reachable from both objects.
func Shared(a, b []span) (o []span) {
	a, b = merge(a), merge(b)
	for i, j := 0, 0; i < len(a) && j < len(b); {
		lo, hi := a[i].lo, a[i].hi
		if b[j].lo > lo {
			lo = b[j].lo
		}
		if b[j].hi < hi {
			hi = b[j].hi
		}
		if lo < hi {
			o = append(o, span{lo, hi, a[i].path})
		}
		if a[i].hi < b[j].hi {
			i++
		} else {
			j++
		}
	}
	return
}

// Snap is a copy of memory.
type Snap struct {
	spans []span
	data  [][]byte
}

func raw(s span) []byte {
	return unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&s.lo))), int(s.hi-s.lo))
}

// Take copies memory.
func Take(s []span) *Snap {
	x := &Snap{spans: s}
	for _, sp := range s {
		x.data = append(x.data, append([]byte{}, raw(sp)...))
	}
	return x
}

// Changed lists the names of the memory that is not what it was.
func (x *Snap) Changed() (o []string) {
	last := ""
	for i, sp := range x.spans {
		if !bytes.Equal(raw(sp), x.data[i]) && sp.path != last {
			last = sp.path
			o = append(o, last)
		}
	}
	return
}

// Len is the number of bytes.
func (x *Snap) Len() (n int) {
	for _, d := range x.data {
		n += len(d)
	}
	return
}
