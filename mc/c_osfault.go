//go:build osfault

package main

import "os"

// built with the overlay of package os (see osfault_gen.go)
func init() {
	installOS = func(h func(op string, f *os.File, name string, n int) (int, error)) { os.VerifHook = h }
	installWrite = func(h func(f *os.File, b []byte)) { os.VerifWrite = h }
	installExit = func(h func(code int)) { os.VerifExit = h }
}
