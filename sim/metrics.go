package main

import (
	"reflect"
	"unsafe"

	"github.com/prometheus/client_golang/prometheus"
)

// resetMetrics brings every registered metric back to its initial value, as
// in a new process.
func resetMetrics() {
	reg := reflect.ValueOf(prometheus.DefaultRegisterer).Elem().FieldByName("collectorsByID")
	for _, k := range reg.MapKeys() {
		c := reflect.ValueOf(open(reg.MapIndex(k)))
		if r, ok := c.Interface().(interface{ Reset() }); ok {
			r.Reset()
			continue
		}
		if c.Kind() != reflect.Pointer {
			continue
		}
		e := c.Elem()
		for _, f := range []string{"valBits", "valInt", "countAndHotIdx"} {
			if v := e.FieldByName(f); v.IsValid() && v.Kind() == reflect.Uint64 {
				*(*uint64)(unsafe.Pointer(v.UnsafeAddr())) = 0
			}
		}
		if v := e.FieldByName("counts"); v.IsValid() && v.Kind() == reflect.Array {
			for i := 0; i < v.Len(); i++ {
				h := v.Index(i).Elem()
				for _, f := range []string{"sumBits", "count"} {
					*(*uint64)(unsafe.Pointer(h.FieldByName(f).UnsafeAddr())) = 0
				}
				b := h.FieldByName("buckets")
				for j := 0; j < b.Len(); j++ {
					*(*uint64)(unsafe.Pointer(b.Index(j).UnsafeAddr())) = 0
				}
			}
		}
	}
}

// open reads an unexported map element.
func open(v reflect.Value) prometheus.Collector {
	p := reflect.New(v.Type())
	*(*prometheus.Collector)(unsafe.Pointer(p.Pointer())) = *(*prometheus.Collector)(ifacePtr(v))
	return *(*prometheus.Collector)(unsafe.Pointer(p.Pointer()))
}

func ifacePtr(v reflect.Value) unsafe.Pointer {
	type value struct {
		typ  unsafe.Pointer
		ptr  unsafe.Pointer
		flag uintptr
	}
	return (*value)(unsafe.Pointer(&v)).ptr
}
