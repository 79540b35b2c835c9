// Package litevfs is the file system the real SQLite engine runs on.
package litevfs

/*
#cgo LDFLAGS: -Wl,--unresolved-symbols=ignore-all
#include "vfs.h"
#include <stdlib.h>
*/
import "C"
import (
	"sort"
	"strings"
	"unsafe"
)

const (
	IOErr = C.F_IOERR
	Full  = C.F_FULL
	Busy  = C.F_BUSY
	Power = C.F_POWER
)

func Register() bool                { return C.lv_register() == 0 }
func Enter(root, conn int)          { C.lv_enter(C.int(root), C.int(conn)) }
func Seed(s uint32)                 { C.lv_seed(C.uint(s)) }
func Arm(at, kind int, seed uint32) { C.lv_arm(C.int(at), C.int(kind), C.uint(seed)) }
func Disarm() bool                  { return C.lv_disarm() != 0 }
func Ops() int                      { return int(C.lv_ops()) }
func Frozen() bool                  { return C.lv_frozen() != 0 }
func Slept() int64                  { return int64(C.lv_slept()) }
func Calm()                         { C.lv_calm() }
func Vanish(conn int)               { C.lv_vanish(C.int(conn)) }
func Flush(root int)                { C.lv_flush(C.int(root)) }
func Wipe(root int)                 { C.lv_wipe(C.int(root)) }
func Copy(from, to int)             { C.lv_copy(C.int(from), C.int(to)) }

// Files lists the files of a root.
func Files(root int) []string {
	const n = 1 << 16
	b := (*C.char)(C.malloc(n))
	defer C.free(unsafe.Pointer(b))
	C.lv_files(C.int(root), b, n)
	var o []string
	for _, s := range strings.Split(C.GoString(b), "\n") {
		if s != "" {
			o = append(o, s)
		}
	}
	sort.Strings(o)
	return o
}

// Ghost: while on, nothing reaches the files.
func Ghost(on bool) {
	v := 0
	if on {
		v = 1
	}
	C.lv_ghost(C.int(v))
}

// Version changes when a root's files may have.
func Version(root int) uint32 { return uint32(C.lv_version(C.int(root))) }

// Touch makes an empty file.
func Touch(root int, name string) {
	n := C.CString(name)
	defer C.free(unsafe.Pointer(n))
	C.lv_touch(C.int(root), n)
}
