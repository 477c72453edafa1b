package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// owned holds values that the library has handed over and that belong to the caller now: they stay
// as they are, and the caller may change them.
type owned struct {
	what []string
	vals []interface{}
	show []string
	undo []func()
	bad  error
}

// fail keeps an error for the next look.
func (k *owned) fail(f string, a ...interface{}) {
	if k.bad == nil {
		k.bad = fmt.Errorf(f, a...)
	}
}

func (k *owned) add(what string, v interface{}) {
	k.what, k.vals, k.show = append(k.what, what), append(k.vals, v), append(k.show, deepShow(v))
}

// same tells whether the values are as they were when they were handed over.
func (k *owned) same() error {
	if k.bad != nil {
		return k.bad
	}
	for i, v := range k.vals {
		if s := deepShow(v); s != k.show[i] {
			return fmt.Errorf("what %s returned was changed later: %s", k.what[i], diffBytes([]byte(k.show[i]), []byte(s)))
		}
	}
	return nil
}

// scrub overwrites value i, as its owner may, after a last look at all of them.
func (k *owned) scrub(i int) error {
	if err := k.same(); err != nil {
		return err
	}
	k.undo = append(k.undo, deepScrub(k.vals[i])...)
	k.show[i] = deepShow(k.vals[i])
	return nil
}

func (k *owned) scrubAll() error {
	if err := k.same(); err != nil {
		return err
	}
	for _, v := range k.vals {
		k.undo = append(k.undo, deepScrub(v)...)
	}
	k.what, k.vals, k.show = nil, nil, nil
	return nil
}

// restore undoes what scrub did, so that a case leaves no traces in what the library may share.
func (k *owned) restore() {
	for i := len(k.undo) - 1; i >= 0; i-- {
		k.undo[i]()
	}
	k.undo = nil
}

// twice runs a check again after everything that it was given has been overwritten.
func twice(f func(*owned) error) error {
	var k owned
	defer k.restore()
	if err := f(&k); err != nil {
		return err
	}
	if len(k.vals) == 0 {
		return nil
	}
	if err := k.scrubAll(); err != nil {
		return err
	}
	if err := f(&k); err != nil {
		return fmt.Errorf("after the caller has overwritten what the same calls returned before: %w", err)
	}
	return k.same()
}

type visit struct {
	t reflect.Type
	p uintptr
}

var timeType = reflect.TypeOf(time.Time{})

// open makes the fields of a struct readable and settable.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	return c
}

func field(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// deepShow prints a value with everything that can be reached from it.
func deepShow(x interface{}) string {
	var b strings.Builder
	seen := map[visit]int{}
	var show func(v reflect.Value)
	ref := func(v reflect.Value) bool {
		p := visit{v.Type(), v.Pointer()}
		if n, ok := seen[p]; ok {
			fmt.Fprintf(&b, "<%d>", n)
			return true
		}
		seen[p] = len(seen)
		return false
	}
	show = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Invalid:
			b.WriteString("nil")
		case reflect.Interface:
			show(v.Elem())
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil")
			} else if !ref(v) {
				b.WriteByte('&')
				show(v.Elem())
			}
		case reflect.Struct:
			v = open(v)
			if v.Type() == timeType {
				fmt.Fprintf(&b, "%v", v.Interface())
				return
			}
			fmt.Fprintf(&b, "%s{", v.Type())
			for i := 0; i < v.NumField(); i++ {
				show(field(v, i))
				b.WriteByte(' ')
			}
			b.WriteByte('}')
		case reflect.Map:
			fmt.Fprintf(&b, "%s", v.Type())
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if ref(v) {
				return
			}
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
			b.WriteByte('[')
			for _, k := range keys {
				fmt.Fprintf(&b, "%q:", k.String())
				show(v.MapIndex(k))
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&b, "%q", v.Bytes())
				return
			}
			if v.Kind() == reflect.Slice && v.Len() > 0 && ref(v) {
				return
			}
			fmt.Fprintf(&b, "%s{", v.Type())
			for i := 0; i < v.Len(); i++ {
				show(v.Index(i))
				b.WriteByte(' ')
			}
			b.WriteByte('}')
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		default:
			fmt.Fprintf(&b, "%s(%v)", v.Type(), v)
		}
	}
	show(reflect.ValueOf(x))
	return b.String()
}

// deepScrub overwrites everything that can be reached from a value and returns how to undo it.
func deepScrub(x interface{}) (undo []func()) {
	seen := map[visit]bool{}
	junk := func(t reflect.Type) reflect.Value {
		switch {
		case t.Kind() == reflect.String:
			return reflect.ValueOf("overwritten").Convert(t)
		case t.Kind() == reflect.Interface && t.NumMethod() == 0:
			return reflect.ValueOf("overwritten")
		case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.String:
			return reflect.ValueOf([]string{"overwritten"}).Convert(t)
		}
		return reflect.Zero(t)
	}
	set := func(v reflect.Value) {
		if !v.CanSet() {
			return
		}
		old := reflect.New(v.Type()).Elem()
		old.Set(v)
		undo = append(undo, func() { v.Set(old) })
		v.Set(junk(v.Type()))
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			walk(v.Elem())
		case reflect.Ptr:
			if p := (visit{v.Type(), v.Pointer()}); !v.IsNil() && !seen[p] {
				seen[p] = true
				walk(v.Elem())
				if v.Elem().Kind() != reflect.Struct {
					set(v.Elem())
				}
			}
		case reflect.Struct:
			if v.Type() == timeType {
				return
			}
			v = open(v)
			for i := 0; i < v.NumField(); i++ {
				f := field(v, i)
				walk(f)
				if k := f.Kind(); k != reflect.Struct && k != reflect.Ptr {
					set(f)
				}
			}
		case reflect.Map:
			p := visit{v.Type(), v.Pointer()}
			if v.IsNil() || seen[p] || v.Type().Key().Kind() != reflect.String {
				return
			}
			seen[p] = true
			keys := v.MapKeys()
			for _, k := range keys {
				e := v.MapIndex(k)
				k := k
				undo = append(undo, func() { v.SetMapIndex(k, e) })
				walk(e)
				v.SetMapIndex(k, junk(v.Type().Elem()))
			}
			for _, name := range []string{"overwritten", "tag", "from", "k"} {
				k := reflect.ValueOf(name).Convert(v.Type().Key())
				if !v.MapIndex(k).IsValid() {
					undo = append(undo, func() { v.SetMapIndex(k, reflect.Value{}) })
					v.SetMapIndex(k, junk(v.Type().Elem()))
				}
			}
		case reflect.Slice:
			if v.Cap() == 0 {
				return
			}
			n := v.Len()
			v = v.Slice(0, v.Cap()) // as append does
			p := visit{v.Type(), v.Pointer()}
			if seen[p] {
				return
			}
			seen[p] = true
			if v.Type().Elem().Kind() == reflect.Uint8 {
				b := v.Bytes()
				old := append([]byte(nil), b...)
				undo = append(undo, func() { copy(b, old) })
				scrub(b)
				return
			}
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				if i < n {
					walk(e)
				}
				if k := e.Kind(); k != reflect.Struct && k != reflect.Ptr {
					set(e)
				}
			}
		}
	}
	walk(reflect.ValueOf(x))
	return undo
}
