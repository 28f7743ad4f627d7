//go:build verif

package zygo

import (
	"reflect"
)

// VerifDepths returns the size of every *Stack field of the interpreter.
func (env *Zlisp) VerifDepths() map[string]int {
	r := map[string]int{}
	v := reflect.ValueOf(env).Elem()
	st := reflect.TypeOf((*Stack)(nil))
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Type == st {
			if !v.Field(i).IsNil() {
				s := (*Stack)(v.Field(i).UnsafePointer())
				r[f.Name] = s.Size()
			}
		}
	}
	return r
}
