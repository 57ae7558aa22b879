// Command dec simulates the decoder.
package main

import (
	_ "github.com/oov/psd/verifsim/sdec"
	"github.com/oov/psd/verifsim/vh"
)

func main() { vh.Main() }
