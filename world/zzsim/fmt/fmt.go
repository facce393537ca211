// Package fmt silences console output of simulated code.
package fmt

// Println ...
func Println(a ...interface{}) (int, error) { return 0, nil }

// Printf ...
func Printf(format string, a ...interface{}) (int, error) { return 0, nil }

// Print ...
func Print(a ...interface{}) (int, error) { return 0, nil }
