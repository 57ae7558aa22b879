// Package log: fatal errors end the simulated command.
package log

import (
	"fmt"

	vos "github.com/oov/psd/verifsim/vos"
)

func Fatal(v ...any)            { vos.Exit(1) }
func Fatalf(f string, v ...any) { vos.Exit(1) }
func Fatalln(v ...any)          { vos.Exit(1) }
func Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }
func Panic(v ...any)            { panic(fmt.Sprint(v...)) }
func Panicln(v ...any)          { panic(fmt.Sprintln(v...)) }
func Print(v ...any)            {}
func Printf(f string, v ...any) {}
func Println(v ...any)          {}
