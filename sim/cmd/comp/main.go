// Command comp runs the simulations of packages blend and composite.
package main

import (
	_ "github.com/oov/psd/verifsim/sblend"
	_ "github.com/oov/psd/verifsim/scomp"
	"github.com/oov/psd/verifsim/vh"
)

func main() { vh.Main() }
