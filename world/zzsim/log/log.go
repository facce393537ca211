// Package log replaces the standard logger: fatal calls end the simulated process.
package log

import (
	"fmt"

	"ustack/zzsim"
)

func Print(a ...interface{})            {}
func Println(a ...interface{})          {}
func Printf(f string, a ...interface{}) {}
func Fatal(a ...interface{})            { zzsim.ProcessExit("log.Fatal: " + fmt.Sprint(a...)) }
func Fatalln(a ...interface{})          { zzsim.ProcessExit("log.Fatal: " + fmt.Sprint(a...)) }
func Fatalf(f string, a ...interface{}) { zzsim.ProcessExit("log.Fatal: " + fmt.Sprintf(f, a...)) }
func Panic(a ...interface{})            { panic(fmt.Sprint(a...)) }
func Panicln(a ...interface{})          { panic(fmt.Sprintln(a...)) }
func Panicf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }
func SetFlags(int)                      {}
func SetPrefix(string)                  {}
