package zzzjson

/*
#cgo CFLAGS: -include vf_hook.h
void vf_sethooks(void *m, void *f, void *r);
*/
import "C"
import "unsafe"

func VfHooks(m, f, r unsafe.Pointer) { C.vf_sethooks(m, f, r) }
