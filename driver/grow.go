package main

import (
	"reflect"
	"runtime"

	"github.com/glycerine/zygomys/v9/zygo"
)

// sizes of every map and slice held directly by the interpreter
func fieldSizes(env *zygo.Zlisp) M {
	r := M{}
	v := reflect.ValueOf(env).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch v.Field(i).Kind() {
		case reflect.Map, reflect.Slice:
			r[v.Type().Field(i).Name] = v.Field(i).Len()
		}
	}
	return r
}

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func init() {
	// {op:grow, setup:[...], forms:[...], rounds, api}: evaluates the forms again and again
	ops["grow"] = func(c Case) map[string]interface{} {
		takeOut()
		zygo.VerifBudget = 100000
		env := newEnv(str(c, "mode"), true)
		defer env.Close()
		env.AddFunction("tr", func(e *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
			if len(args) == 0 {
				return zygo.SexpNull, nil
			}
			return args[len(args)-1], nil
		})
		(&tracer{}).installHost(env)
		nerr := ""
		round := func(fs []string) {
			for _, f := range fs {
				zygo.VerifSteps = 0
				_, err, pan := guarded(func() (zygo.Sexp, error) { return evalVia(env, str(c, "api"), f) })
				if pan != "" {
					nerr = "panic " + pan
				} else if err != nil {
					nerr = err.Error()
				}
			}
		}
		round(strs(c, "setup"))
		fs := strs(c, "forms")
		n := num(c, "rounds")
		for i := 0; i < n; i++ {
			round(fs)
		}
		takeOut()
		d0, s0, h0 := env.VerifDepths(), fieldSizes(env), heap()
		for i := 0; i < n; i++ {
			round(fs)
		}
		takeOut()
		d1, s1, h1 := env.VerifDepths(), fieldSizes(env), heap()
		runtime.KeepAlive(env)
		return M{"d0": d0, "d1": d1, "s0": s0, "s1": s1, "bytes": h1 - h0, "err": nerr}
	}
}
