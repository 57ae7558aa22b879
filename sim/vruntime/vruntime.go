// Package runtime: the parts that are nondeterministic.
package runtime

import (
	"runtime"

	"github.com/oov/psd/verifsim/vsim"
)

func GOMAXPROCS(n int) int {
	old := vsim.Procs()
	if n > 0 {
		vsim.SetProcs(n)
	}
	return old
}
func NumCPU() int { return vsim.Procs() }
func Gosched()    { vsim.Yield() }
func Goexit()     { runtime.Goexit() }
