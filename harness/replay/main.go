// Command replay runs one harness natively on one concrete assignment.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"syscall"

	"vh/hs"
	"vh/vrt"
)

func main() {
	f := hs.Harnesses[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", os.Args[1])
		os.Exit(3)
	}
	debug.SetMemoryLimit(1 << 30)
	debug.SetMaxStack(256 << 20)
	if !vrt.RaceEnabled {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	vrt.Start(os.Args[2], os.Args[3])
	defer func() {
		if r := recover(); r != nil {
			vrt.Panicked(fmt.Sprint(r) + "\n" + string(debug.Stack()))
		} else {
			vrt.End()
		}
	}()
	f()
}
