// Command exp runs the simulations of the psdexporter command.
package main

import (
	_ "github.com/oov/psd/verifsim/sexp"
	"github.com/oov/psd/verifsim/vh"
)

func main() { vh.Main() }
