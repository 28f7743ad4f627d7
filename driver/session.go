package main

import (
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"
)

var outFile *os.File
var realStdout, realStderr *os.File

func initOut() {
	realStdout, realStderr = os.Stdout, os.Stderr
	f, err := os.CreateTemp("", "zvout")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	outFile = f
	os.Stdout = f
	if os.Getenv("ZV_STDERR") == "" {
		os.Stderr = f
	}
}

func takeOut() string {
	n, _ := outFile.Seek(0, io.SeekCurrent)
	if n == 0 {
		return ""
	}
	lim := n
	if lim > 1<<16 {
		lim = 1 << 16
	}
	b := make([]byte, lim)
	outFile.ReadAt(b, 0)
	outFile.Truncate(0)
	outFile.Seek(0, 0)
	return string(b)
}

func str(c Case, k string) string { s, _ := c[k].(string); return s }
func num(c Case, k string) int {
	switch x := c[k].(type) {
	case float64:
		return int(x)
	case string:
		n, _ := strconv.Atoi(x)
		return n
	}
	return 0
}
func boolean(c Case, k string) bool { b, _ := c[k].(bool); return b }
func list(c Case, k string) []interface{} {
	l, _ := c[k].([]interface{})
	return l
}
func strs(c Case, k string) (r []string) {
	for _, x := range list(c, k) {
		s, _ := x.(string)
		r = append(r, s)
	}
	return
}

type M = map[string]interface{}

func encStr(s string) M {
	m := M{"k": "str", "v": s}
	if !utf8.ValidString(s) {
		m["h"] = hex.EncodeToString([]byte(s))
	}
	return m
}

// enc turns a value into a canonical tree.
func enc(env *zygo.Zlisp, x zygo.Sexp, depth int) interface{} {
	if x == nil {
		return M{"k": "gonil"}
	}
	if rv := reflect.ValueOf(x); rv.Kind() == reflect.Ptr && rv.IsNil() {
		return M{"k": "gonil"}
	}
	if depth > 200 {
		return M{"k": "deep"}
	}
	switch t := x.(type) {
	case *zygo.SexpInt:
		return M{"k": "int", "v": strconv.FormatInt(t.Val, 10)}
	case *zygo.SexpUint64:
		return M{"k": "u64", "v": strconv.FormatUint(t.Val, 10)}
	case *zygo.SexpFloat:
		b := math.Float64bits(t.Val)
		if t.Val != t.Val {
			return M{"k": "float", "v": "nan"}
		}
		return M{"k": "float", "v": fmt.Sprintf("%016x", b)}
	case *zygo.SexpBool:
		return M{"k": "bool", "v": t.Val}
	case *zygo.SexpChar:
		return M{"k": "char", "v": int(t.Val)}
	case *zygo.SexpStr:
		return encStr(t.S)
	case *zygo.SexpSymbol:
		return M{"k": "sym", "v": t.Name()}
	case *zygo.SexpSentinel:
		if t == zygo.SexpNull {
			return M{"k": "nil"}
		}
		return M{"k": "sentinel", "v": t.SexpString(nil)}
	case *zygo.SexpPair:
		items := []interface{}{}
		var cur zygo.Sexp = t
		for n := 0; n < 100000; n++ {
			p, ok := cur.(*zygo.SexpPair)
			if !ok {
				if cur == zygo.SexpNull {
					return M{"k": "list", "v": items}
				}
				return M{"k": "dotted", "v": items, "tail": enc(env, cur, depth+1)}
			}
			items = append(items, enc(env, p.Head, depth+1))
			cur = p.Tail
		}
		return M{"k": "deep"}
	case *zygo.SexpArray:
		items := []interface{}{}
		for _, e := range t.Val {
			items = append(items, enc(env, e, depth+1))
		}
		m := M{"k": "array", "v": items}
		if t.Infix {
			m["infix"] = true
		}
		return m
	case *zygo.SexpHash:
		return encHash(env, t, depth)
	case *zygo.SexpFunction:
		return M{"k": "fn"}
	case *zygo.SexpRaw:
		return M{"k": "raw", "v": hex.EncodeToString(t.Val)}
	case *zygo.SexpError:
		return M{"k": "error"}
	case *zygo.SexpTime:
		return M{"k": "time", "v": t.Tm.UTC().Format(time.RFC3339Nano)}
	case *zygo.SexpLazyArg:
		return M{"k": "lazy"}
	case *zygo.Stack:
		return M{"k": "package"}
	case *zygo.SexpPointer:
		return M{"k": "ptr"}
	case *zygo.SexpComma:
		return M{"k": "comma"}
	case *zygo.SexpSemicolon:
		return M{"k": "semi"}
	case *zygo.SexpComment:
		return M{"k": "comment"}
	case zygo.Selector:
		if env != nil {
			v, err := t.RHS(env)
			if err != nil {
				return M{"k": "selector", "err": err.Error()}
			}
			return M{"k": "selector", "v": enc(env, v, depth+1)}
		}
		return M{"k": "selector"}
	case *zygo.SexpReflect:
		return M{"k": "reflect", "v": fmt.Sprintf("%T", t.Val.Interface())}
	}
	return M{"k": "other", "v": fmt.Sprintf("%T", x)}
}

func encHash(env *zygo.Zlisp, t *zygo.SexpHash, depth int) interface{} {
	pairs := []interface{}{}
	seen := 0
	for _, k := range t.KeyOrder {
		v, err := t.HashGetDefault(t.Env, k, zygo.SexpEnd)
		if err != nil || v == zygo.SexpEnd {
			continue
		}
		seen++
		pairs = append(pairs, []interface{}{enc(env, k, depth+1), enc(env, v, depth+1)})
	}
	return M{"k": "hash", "t": t.TypeName, "v": pairs}
}

// ---- interpreters

func newEnv(mode string, std bool) *zygo.Zlisp {
	var env *zygo.Zlisp
	switch mode {
	case "sandbox":
		env = zygo.NewZlispSandbox()
	default:
		env = zygo.NewZlisp()
	}
	if std {
		env.StandardSetup()
	}
	return env
}

type tracer struct {
	events   []interface{}
	calls    int
	failAt   int
	failKind string
	env      *zygo.Zlisp
}

func (tr *tracer) install(env *zygo.Zlisp) {
	// (tr TAG v...) records its arguments and returns the last one
	tr.env = env
	env.AddFunction("tr", func(e *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		tr.calls++
		ev := []interface{}{}
		for _, a := range args {
			ev = append(ev, enc(e, a, 0))
		}
		if len(tr.events) < 5000 {
			tr.events = append(tr.events, ev)
		}
		if tr.failAt > 0 && tr.calls == tr.failAt {
			if tr.failKind == "panic" {
				panic("injected-panic")
			}
			return zygo.SexpNull, fmt.Errorf("injected-error")
		}
		if len(args) == 0 {
			return zygo.SexpNull, nil
		}
		return args[len(args)-1], nil
	})
	tr.installHost(env)
}

// host functions: one that fails, one that panics, one that calls back
func (tr *tracer) installHost(env *zygo.Zlisp) {
	env.AddFunction("boom", func(e *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		return zygo.SexpNull, fmt.Errorf("injected-error")
	})
	env.AddFunction("boomp", func(e *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		panic("injected-panic")
	})
	env.AddFunction("cb", func(e *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		if len(args) == 0 {
			return zygo.SexpNull, zygo.WrongNargs
		}
		f, ok := args[0].(*zygo.SexpFunction)
		if !ok {
			return zygo.SexpNull, fmt.Errorf("cb needs a function")
		}
		return e.Apply(f, args[1:])
	})
}

func guarded(f func() (zygo.Sexp, error)) (v zygo.Sexp, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprintf("%v", r)
			if os.Getenv("ZV_TRACE") != "" {
				pan += "\n" + string(debug.Stack())
			}
		}
	}()
	v, err = f()
	return
}

func evalVia(env *zygo.Zlisp, api, text string) (zygo.Sexp, error) {
	switch api {
	case "loadrun":
		if err := env.LoadString(text); err != nil {
			return zygo.SexpNull, err
		}
		return env.Run()
	case "file":
		if err := env.LoadFile(strings.NewReader(text)); err != nil {
			return zygo.SexpNull, err
		}
		return env.Run()
	case "parse":
		p := env.NewParser()
		p.ResetAddNewInput(strings.NewReader(text))
		xs, err := p.ParseTokens()
		p.Stop()
		if err != nil {
			return zygo.SexpNull, err
		}
		return env.NewSexpArray(xs), nil
	case "evalexprs":
		p := env.NewParser()
		p.ResetAddNewInput(strings.NewReader(text))
		xs, err := p.ParseTokens()
		p.Stop()
		if err != nil {
			return zygo.SexpNull, err
		}
		return env.EvalExpressions(xs)
	case "evalfun":
		p := env.NewParser()
		p.ResetAddNewInput(strings.NewReader(text))
		xs, err := p.ParseTokens()
		p.Stop()
		if err != nil {
			return zygo.SexpNull, err
		}
		if len(xs) == 0 {
			return zygo.SexpNull, nil
		}
		return zygo.EvalFunction(env, "eval", xs)
	}
	return env.EvalString(text)
}

// high-water marks of the interpreter's stacks and of the Go stack, sampled
// before every function call
var curHWM map[string]int

func sampleHWM(env *zygo.Zlisp, name string, args []zygo.Sexp) {
	if curHWM == nil {
		return
	}
	for k, n := range env.VerifDepths() {
		if n > curHWM[k] {
			curHWM[k] = n
		}
	}
	var pcs [2000]uintptr
	if n := runtime.Callers(0, pcs[:]); n > curHWM["go"] {
		curHWM["go"] = n
	}
}

func evalOne(env *zygo.Zlisp, tr *tracer, api, text string, c Case) M {
	r := M{}
	ev0 := 0
	if tr != nil {
		ev0 = len(tr.events)
	}
	zygo.VerifSteps = 0
	hw := map[string]int{}
	if boolean(c, "hwm") {
		curHWM = hw
	}
	v, err, pan := guarded(func() (zygo.Sexp, error) { return evalVia(env, api, text) })
	r["steps"] = zygo.VerifSteps
	if boolean(c, "hwm") {
		curHWM = nil
		r["hwm"] = hw
	}
	if pan != "" {
		r["panic"] = pan
	} else if err != nil {
		r["err"] = err.Error()
		if err == zygo.VerifBudgetErr || strings.Contains(err.Error(), zygo.VerifBudgetErr.Error()) {
			r["budget"] = true
		}
	} else {
		_, _, p2 := guarded(func() (zygo.Sexp, error) {
			r["val"] = enc(env, v, 0)
			if !boolean(c, "noprint") && v != nil {
				r["print"] = v.SexpString(nil)
			}
			return nil, nil
		})
		if p2 != "" {
			r["printpanic"] = p2
		}
	}
	if tr != nil {
		r["trace"] = append([]interface{}{}, tr.events[ev0:]...)
	}
	if boolean(c, "depths") {
		r["depths"] = env.VerifDepths()
	}
	if boolean(c, "out") {
		r["out"] = takeOut()
	}
	return r
}

func init() {
	// {op:session, mode, std, forms:[...], api, budget, failAt, failKind, depths, out}
	ops["session"] = func(c Case) map[string]interface{} {
		takeOut()
		zygo.VerifBudget = int64(num(c, "budget"))
		env := newEnv(str(c, "mode"), !boolean(c, "nostd"))
		defer env.Close()
		if boolean(c, "dup") {
			env = env.Duplicate()
		}
		tr := &tracer{failAt: num(c, "failAt"), failKind: str(c, "failKind")}
		tr.install(env)
		if boolean(c, "infixwrap") {
			env.WrapLoadExpressionsInInfix = true
		}
		if boolean(c, "hwm") {
			env.AddPreHook(sampleHWM)
		}
		res := []interface{}{}
		d0 := env.VerifDepths()
		for _, f := range strs(c, "forms") {
			res = append(res, evalOne(env, tr, str(c, "api"), f, c))
		}
		zygo.VerifBudget = 0
		return M{"results": res, "rest": d0, "calls": tr.calls}
	}
	// the names of the builtin functions
	ops["builtins"] = func(c Case) map[string]interface{} {
		names := []string{}
		for n := range zygo.AllBuiltinFunctions() {
			names = append(names, n)
		}
		sort.Strings(names)
		return M{"names": names}
	}
	// many independent single evaluations in one shared interpreter, one per form
	ops["version"] = func(c Case) map[string]interface{} { return M{"ok": true} }
}
