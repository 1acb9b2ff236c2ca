package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

// osOverlay writes an overlay in which package os asks a hook about each operation on files.
func osOverlay(goroot, out string) {
	mustNil(os.MkdirAll(out, 0o755))
	src := filepath.Join(goroot, "src", "os")
	over := map[string]string{}
	edit := func(name string, edits ...string) {
		b, err := os.ReadFile(filepath.Join(src, name))
		mustNil(err)
		s := string(b)
		for i := 0; i < len(edits); i += 2 {
			if strings.Count(s, edits[i]+"\n") != 1 {
				panic("package os has no " + edits[i])
			}
			s = strings.Replace(s, edits[i]+"\n", edits[i]+"\n"+edits[i+1]+"\n", 1)
		}
		p := filepath.Join(out, name)
		mustNil(os.WriteFile(p, []byte(s), 0o644))
		over[filepath.Join(src, name)] = p
	}
	rd := `if VerifHook != nil { if lim, e := VerifHook("read", f, f.name, len(b)); e != nil { return 0, e } else if lim < len(b) { b = b[:lim] } }`
	wr := func(f, more string) string {
		return `if VerifWrite != nil { VerifWrite(f, b) }; if VerifHook != nil { if lim, e := VerifHook("write", f, f.name, len(b)); e != nil { if lim > 0 { n, err = f.pfd.` + f + `(b[:lim]` + more + `) }; if err == nil { err = e }; return n, err } }`
	}
	edit("file_posix.go",
		"func (f *File) read(b []byte) (n int, err error) {", rd,
		"func (f *File) pread(b []byte, off int64) (n int, err error) {", rd,
		"func (f *File) write(b []byte) (n int, err error) {", wr("Write", ""),
		"func (f *File) pwrite(b []byte, off int64) (n int, err error) {", wr("Pwrite", ", off"),
		"func (f *File) Truncate(size int64) error {", `if VerifHook != nil && f != nil { if _, e := VerifHook("truncate", f, f.name, 0); e != nil { return &PathError{Op: "truncate", Path: f.name, Err: e} } }`,
	)
	nm := func(op, name, ret string) string {
		return `if VerifHook != nil { if _, e := VerifHook("` + op + `", nil, ` + name + `, 0); e != nil { return ` + ret + `&PathError{Op: "` + op + `", Path: ` + name + `, Err: e} } }`
	}
	edit("file_unix.go",
		"func openFileNolog(name string, flag int, perm FileMode) (*File, error) {",
		`if VerifHook != nil { op := "open"; if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC) != 0 { op = "create" }; if _, e := VerifHook(op, nil, name, 0); e != nil { return nil, &PathError{Op: "open", Path: name, Err: e} } }`,
		"func openDirNolog(name string) (*File, error) {", nm("open", "name", "nil, "),
		"func (f *File) seek(offset int64, whence int) (ret int64, err error) {", `if VerifHook != nil { if _, e := VerifHook("seek", f, f.name, 0); e != nil { return 0, e } }`,
		"func Truncate(name string, size int64) error {", nm("truncate", "name", ""),
		"func Remove(name string) error {", nm("remove", "name", ""),
		"func rename(oldname, newname string) error {", nm("rename", "newname", ""),
		"func Link(oldname, newname string) error {", nm("link", "newname", ""),
		"func Symlink(oldname, newname string) error {", nm("link", "newname", ""),
	)
	edit("file.go", "func Mkdir(name string, perm FileMode) error {", nm("mkdir", "name", ""))
	edit("zero_copy_linux.go",
		"func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {", "if VerifHook != nil { return 0, false, nil }",
		"func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {", "if VerifHook != nil { return 0, false, nil }")
	edit("proc.go", "func Exit(code int) {", "if VerifExit != nil { VerifExit(code) }")
	p := filepath.Join(out, "verif_hook.go")
	mustNil(os.WriteFile(p, []byte(`package os

// VerifHook is asked before each operation: it gives an error, and how many bytes are read or written at most
// (before the error when writing).
var VerifHook func(op string, f *File, name string, n int) (int, error)

// VerifWrite is given what is written to any file, before it is.
var VerifWrite func(f *File, b []byte)

// VerifExit is called before the process exits.
var VerifExit func(code int)
`), 0o644))
	over[filepath.Join(src, "verif_hook.go")] = p
	b, _ := json.MarshalIndent(map[string]any{"Replace": over}, "", " ")
	mustNil(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func goroot() string {
	if r := os.Getenv("MC_GOROOT"); r != "" {
		return r
	}
	return runtime.GOROOT()
}
