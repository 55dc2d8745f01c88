// Exports the Go binding of zzzJSON to the explorer, one function per method.
package main

/*
#include <stdlib.h>
#include <stdint.h>

*/
import "C"
import (
	"unsafe"

	z "vf/zzzjson"
)

var allocs []*z.Allocator
var nalive int
var vals []*z.Value
var strs []unsafe.Pointer

func put(v *z.Value) C.uintptr_t {
	if v == nil {
		return 0
	}
	vals = append(vals, v)
	return C.uintptr_t(len(vals))
}
func val(h C.uintptr_t) *z.Value { return vals[h-1] }
func str(s *string) *C.char {
	if s == nil {
		return nil
	}
	p := C.CString(*s)
	strs = append(strs, unsafe.Pointer(p))
	return p
}
func gs(p *C.char, n C.size_t) string { return string(unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))) }
func b(x bool) C.int {
	if x {
		return 1
	}
	return 0
}

//export vfgo_NewAllocator
func vfgo_NewAllocator() C.uintptr_t {
	allocs = append(allocs, z.NewAllocator())
	nalive++
	return C.uintptr_t(len(allocs))
}

//export vfgo_ReleaseAllocator
func vfgo_ReleaseAllocator(h C.uintptr_t) {
	allocs[h-1].ReleaseAllocator()
	nalive--
	if nalive == 0 {
		allocs = allocs[:0]
		vals = vals[:0]
		for _, p := range strs {
			C.free(p)
		}
		strs = strs[:0]
	}
}

//export vfgo_Abandon
func vfgo_Abandon() { allocs = allocs[:0]; vals = vals[:0]; strs = strs[:0]; nalive = 0 }

//export vfgo_NewValue
func vfgo_NewValue(h C.uintptr_t) C.uintptr_t { return put(z.NewValue(allocs[h-1])) }

//export vfgo_Parse
func vfgo_Parse(v C.uintptr_t, p *C.char, n C.size_t) C.int { return b(val(v).Parse(gs(p, n))) }

//export vfgo_Stringify
func vfgo_Stringify(v C.uintptr_t) *C.char { return str(val(v).Stringify()) }

//export vfgo_GetKey
func vfgo_GetKey(v C.uintptr_t) *C.char { return str(val(v).GetKey()) }

//export vfgo_GetUnEscapeKey
func vfgo_GetUnEscapeKey(v C.uintptr_t) *C.char { return str(val(v).GetUnEscapeKey()) }

//export vfgo_GetStr
func vfgo_GetStr(v C.uintptr_t) *C.char { return str(val(v).GetStr()) }

//export vfgo_GetUnEscapeStr
func vfgo_GetUnEscapeStr(v C.uintptr_t) *C.char { return str(val(v).GetUnEscapeStr()) }

//export vfgo_GetNumStr
func vfgo_GetNumStr(v C.uintptr_t) *C.char { return str(val(v).GetNum()) }

//export vfgo_GetBool
func vfgo_GetBool(v C.uintptr_t) C.int {
	r := val(v).GetBool()
	if r == nil {
		return -1
	}
	return b(*r)
}

//export vfgo_IsNull
func vfgo_IsNull(v C.uintptr_t) C.int { return b(val(v).IsNull()) }

//export vfgo_Type
func vfgo_Type(v C.uintptr_t) C.int {
	r := val(v).Type()
	if r == nil {
		return 0
	}
	switch *r {
	case z.JSONTypeBool:
		return 1
	case z.JSONTypeArray:
		return 2
	case z.JSONTypeObject:
		return 3
	case z.JSONTypeString:
		return 4
	case z.JSONTypeNull:
		return 5
	case z.JSONTypeNumber:
		return 6
	}
	return 99
}

//export vfgo_ObjGet
func vfgo_ObjGet(v C.uintptr_t, p *C.char, n C.size_t) C.uintptr_t { return put(val(v).ObjGet(gs(p, n))) }

//export vfgo_ArrayGet
func vfgo_ArrayGet(v C.uintptr_t, i C.size_t) C.uintptr_t { return put(val(v).ArrayGet(z.JSONSize(i))) }

//export vfgo_SizeOf
func vfgo_SizeOf(v C.uintptr_t) C.size_t { return C.size_t(val(v).Size()) }

//export vfgo_Begin
func vfgo_Begin(v C.uintptr_t) C.uintptr_t { return put(val(v).Begin()) }

//export vfgo_Next
func vfgo_Next(v C.uintptr_t) C.uintptr_t { return put(val(v).Next()) }

//export vfgo_Copy
func vfgo_Copy(v C.uintptr_t) C.uintptr_t { return put(val(v).Copy()) }

//export vfgo_Move
func vfgo_Move(v C.uintptr_t) C.int { return b(val(v).Move()) }

//export vfgo_SetNull
func vfgo_SetNull(v C.uintptr_t) { val(v).SetNull() }

//export vfgo_SetBool
func vfgo_SetBool(v C.uintptr_t, x C.int) { val(v).SetBool(x != 0) }

//export vfgo_SetNumStr
func vfgo_SetNumStr(v C.uintptr_t, p *C.char, n C.size_t) C.int { return b(val(v).SetNumStr(gs(p, n))) }

//export vfgo_SetStr
func vfgo_SetStr(v C.uintptr_t, p *C.char, n C.size_t) C.int { return b(val(v).SetStr(gs(p, n))) }

//export vfgo_SetStrEscape
func vfgo_SetStrEscape(v C.uintptr_t, p *C.char, n C.size_t) C.int { return b(val(v).SetStrEscape(gs(p, n))) }

//export vfgo_SetKey
func vfgo_SetKey(v C.uintptr_t, p *C.char, n C.size_t) C.int { return b(val(v).SetKey(gs(p, n))) }

//export vfgo_SetKeyEscape
func vfgo_SetKeyEscape(v C.uintptr_t, p *C.char, n C.size_t) C.int { return b(val(v).SetKeyEscape(gs(p, n))) }

//export vfgo_SetArray
func vfgo_SetArray(v C.uintptr_t) { val(v).SetArray() }

//export vfgo_SetObj
func vfgo_SetObj(v C.uintptr_t) { val(v).SetObj() }

//export vfgo_Set
func vfgo_Set(v, w C.uintptr_t) C.int { return b(val(v).Set(val(w))) }

//export vfgo_SetFast
func vfgo_SetFast(v, w C.uintptr_t) C.int { return b(val(v).SetFast(val(w))) }

//export vfgo_ObjAdd
func vfgo_ObjAdd(v, w C.uintptr_t) C.int { return b(val(v).ObjAdd(val(w))) }

//export vfgo_ObjAddFast
func vfgo_ObjAddFast(v, w C.uintptr_t) C.int { return b(val(v).ObjAddFast(val(w))) }

//export vfgo_ArrayAdd
func vfgo_ArrayAdd(v, w C.uintptr_t) C.int { return b(val(v).ArrayAdd(val(w))) }

//export vfgo_ArrayAddFast
func vfgo_ArrayAddFast(v, w C.uintptr_t) C.int { return b(val(v).ArrayAddFast(val(w))) }

//export vfgo_ObjDel
func vfgo_ObjDel(v C.uintptr_t, p *C.char, n C.size_t) C.int { return b(val(v).ObjDel(gs(p, n))) }

//export vfgo_ArrayDel
func vfgo_ArrayDel(v C.uintptr_t, i C.size_t) C.int { return b(val(v).ArrayDel(z.JSONSize(i))) }

//export vfgo_Hooks
func vfgo_Hooks(m, f, r unsafe.Pointer) { z.VfHooks(m, f, r) }

func main() {}
