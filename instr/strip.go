package main

import (
	"go/ast"
	"go/token"
	"reflect"
)

// strip clears all positions so that the printer lays the code out by itself.
// A few positions carry meaning (ellipsis in calls, parentheses of groups,
// alias declarations, receive/send arrows) and are set to 1.
func strip(f *ast.File) {
	seen := map[uintptr]bool{}
	posType := reflect.TypeOf(token.Pos(0))
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			if v.Type() == reflect.TypeOf((*ast.Object)(nil)) || v.Type() == reflect.TypeOf((*ast.Scope)(nil)) {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				fl := v.Field(i)
				if fl.Type() == posType {
					name := v.Type().Field(i).Name
					keep := name == "Ellipsis" || name == "Assign" || name == "Lparen" || name == "Arrow"
					if name == "Lparen" && v.Type() != reflect.TypeOf(ast.GenDecl{}) {
						keep = false
					}
					if name == "Arrow" && v.Type() != reflect.TypeOf(ast.ChanType{}) {
						keep = false
					}
					if fl.CanSet() {
						if keep && fl.Int() != 0 {
							fl.SetInt(1)
						} else {
							fl.SetInt(0)
						}
					}
					continue
				}
				if fl.CanSet() {
					walk(fl)
				}
			}
		}
	}
	walk(reflect.ValueOf(f))
}
