// Package fakesyscall stands in for the part of package syscall through which
// a program asks Windows for the code pages of its console. Only the console's
// output code page is VERIF_OUTPUT_CP; everything else answers VERIF_OTHER_CP.
package fakesyscall

import (
	"os"
	"strconv"
	"syscall"
)

type (
	LazyDLL  struct{ Name string }
	LazyProc struct{ Name string }
	DLL      struct{ Name string }
	Proc     struct{ Name string }
	Errno    = syscall.Errno
)

func NewLazyDLL(name string) *LazyDLL                       { return &LazyDLL{name} }
func (d *LazyDLL) NewProc(name string) *LazyProc            { return &LazyProc{name} }
func (d *LazyDLL) Load() error                              { return nil }
func (p *LazyProc) Find() error                             { return nil }
func LoadDLL(name string) (*DLL, error)                     { return &DLL{name}, nil }
func MustLoadDLL(name string) *DLL                          { return &DLL{name} }
func (d *DLL) FindProc(name string) (*Proc, error)          { return &Proc{name}, nil }
func (d *DLL) MustFindProc(name string) *Proc               { return &Proc{name} }
func (p *Proc) Call(a ...uintptr) (uintptr, uintptr, error) { return answer(p.Name) }

func (p *LazyProc) Call(a ...uintptr) (uintptr, uintptr, error) { return answer(p.Name) }

func answer(name string) (uintptr, uintptr, error) {
	v := "VERIF_OTHER_CP"
	if name == "GetConsoleOutputCP" {
		v = "VERIF_OUTPUT_CP"
	}
	n, _ := strconv.ParseUint(os.Getenv(v), 10, 32)
	if n == 0 {
		return 0, 0, Errno(6)
	}
	return uintptr(n), 0, Errno(0)
}
