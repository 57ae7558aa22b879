// Package fmt: commands print to their simulated standard output.
package fmt

import (
	"fmt"

	vos "github.com/oov/psd/verifsim/vos"
)

func Print(a ...any) (int, error)            { return fmt.Fprint(vos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(vos.Stdout, f, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(vos.Stdout, a...) }
