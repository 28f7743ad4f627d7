package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"unsafe"

	"github.com/glycerine/zygomys/v9/zygo"
)

// envParser finds the interpreter's own parser.
func envParser(env *zygo.Zlisp) *zygo.Parser {
	v := reflect.ValueOf(env).Elem()
	want := reflect.TypeOf((*zygo.Parser)(nil))
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == want {
			return *(**zygo.Parser)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return nil
}

func readReply(env *zygo.Zlisp, xs []zygo.Sexp, err error, pan string, vals bool) M {
	m := M{}
	switch {
	case pan != "":
		m["st"] = "panic"
		m["err"] = pan
	case err == zygo.ErrMoreInputNeeded:
		m["st"] = "more"
	case err != nil:
		m["st"] = "err"
		m["err"] = err.Error()
	default:
		m["st"] = "ok"
	}
	if vals && m["st"] != "err" {
		l := []interface{}{}
		for _, x := range xs {
			l = append(l, enc(env, x, 0))
		}
		m["xs"] = l
	}
	m["n"] = len(xs)
	return m
}

func tokens(p *zygo.Parser) (xs []zygo.Sexp, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
			if len(pan) > 200 {
				pan = pan[:200]
			}
		}
	}()
	xs, err = p.ParseTokens()
	return
}

// read: parses pieces of text one after the other, after other things
// happened to the same interpreter.
func init() {
	ops["read"] = func(c Case) map[string]interface{} {
		env := newEnv("", true)
		own, _ := c["own"].(bool)
		var p *zygo.Parser
		if own {
			p = envParser(env)
		} else {
			p = env.NewParser()
		}
		histOut := []interface{}{}
		one := func(m string, t string) (out interface{}) {
			defer func() {
				if r := recover(); r != nil {
					out = "panic"
				}
			}()
			switch m {
			case "parse":
				p.ResetAddNewInput(strings.NewReader(t))
				_, err, pan := tokens(p)
				return fmt.Sprint(err, pan)
			case "new":
				p.NewInput(strings.NewReader(t))
				_, err, pan := tokens(p)
				return fmt.Sprint(err, pan)
			case "add":
				p.NewInput(strings.NewReader(t))
				return ""
			case "load":
				return fmt.Sprint(env.LoadString(t))
			case "eval":
				_, err := env.EvalString(t)
				return fmt.Sprint(err)
			case "stop":
				return fmt.Sprint(p.Stop())
			case "reset":
				p.Reset()
				return ""
			case "clear":
				env.Clear()
				return ""
			case "source":
				return fmt.Sprint(env.SourceStream(strings.NewReader(t)))
			case "infix":
				return env.ReplLineInfixWrap(t)
			}
			return "unknown " + m
		}
		if h, ok := c["hist"].([]interface{}); ok {
			for _, x := range h {
				q := x.([]interface{})
				histOut = append(histOut, one(q[0].(string), q[1].(string)))
			}
		}
		how, _ := c["how"].(string)
		replies := []interface{}{}
		jobs := c["texts"].([]interface{})
		for _, j := range jobs {
			pcs := j.([]interface{})
			reps := []interface{}{}
			for i, q := range pcs {
				t := q.(string)
				// queue: everything is handed over before the parser runs
				if how == "queue" && i+1 < len(pcs) {
					if i == 0 {
						p.ResetAddNewInput(strings.NewReader(t))
					} else {
						p.NewInput(strings.NewReader(t))
					}
					continue
				}
				if how == "file" || how == "readfn" {
					xs, err, pan := readOther(env, how, t)
					reps = append(reps, readReply(env, xs, err, pan, true))
					continue
				}
				if i == 0 && (how != "queue" || len(pcs) == 1) {
					if how == "resetnew" {
						p.Reset()
						p.NewInput(strings.NewReader(t))
					} else {
						p.ResetAddNewInput(strings.NewReader(t))
					}
				} else {
					p.NewInput(strings.NewReader(t))
				}
				xs, err, pan := tokens(p)
				r := readReply(env, xs, err, pan, true)
				reps = append(reps, r)
				if pan != "" || r["st"] == "err" {
					break
				}
			}
			replies = append(replies, reps)
		}
		return M{"r": replies, "hist": histOut}
	}
}

func readOther(env *zygo.Zlisp, how, t string) (xs []zygo.Sexp, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
		}
	}()
	if how == "file" {
		f, e := os.CreateTemp(".", "rd")
		if e != nil {
			panic(e)
		}
		f.WriteString(t)
		f.Close()
		defer os.Remove(f.Name())
		xs, err = env.ParseFile(f.Name())
		return
	}
	env.AddGlobal("zvtext", &zygo.SexpStr{S: t})
	x, err := env.EvalString("(read zvtext)")
	return []zygo.Sexp{x}, err, ""
}
