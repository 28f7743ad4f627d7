package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// dec builds the value that an encoded tree stands for.
func dec(env *zygo.Zlisp, x interface{}) zygo.Sexp {
	m := x.(map[string]interface{})
	switch m["k"].(string) {
	case "int":
		n, err := strconv.ParseInt(m["v"].(string), 10, 64)
		if err != nil {
			panic(err)
		}
		return &zygo.SexpInt{Val: n}
	case "u64":
		n, err := strconv.ParseUint(m["v"].(string), 10, 64)
		if err != nil {
			panic(err)
		}
		return &zygo.SexpUint64{Val: n}
	case "float":
		if m["v"].(string) == "nan" {
			return &zygo.SexpFloat{Val: math.NaN()}
		}
		b, err := strconv.ParseUint(m["v"].(string), 16, 64)
		if err != nil {
			panic(err)
		}
		return &zygo.SexpFloat{Val: math.Float64frombits(b)}
	case "bool":
		return &zygo.SexpBool{Val: m["v"].(bool)}
	case "char":
		return &zygo.SexpChar{Val: rune(m["v"].(float64))}
	case "str":
		if h, ok := m["h"].(string); ok {
			b, err := hex.DecodeString(h)
			if err != nil {
				panic(err)
			}
			return &zygo.SexpStr{S: string(b)}
		}
		return &zygo.SexpStr{S: m["v"].(string)}
	case "sym":
		return env.MakeSymbol(m["v"].(string))
	case "nil":
		return zygo.SexpNull
	case "raw":
		b, err := hex.DecodeString(m["v"].(string))
		if err != nil {
			panic(err)
		}
		return &zygo.SexpRaw{Val: b}
	case "list", "dotted":
		l := m["v"].([]interface{})
		var tail zygo.Sexp = zygo.SexpNull
		if m["k"].(string) == "dotted" {
			tail = dec(env, m["tail"])
		}
		for i := len(l) - 1; i >= 0; i-- {
			tail = zygo.Cons(dec(env, l[i]), tail)
		}
		return tail
	case "array":
		l := m["v"].([]interface{})
		arr := make([]zygo.Sexp, 0, len(l))
		for _, y := range l {
			arr = append(arr, dec(env, y))
		}
		return &zygo.SexpArray{Val: arr, Env: env}
	case "hash":
		name := "hash"
		if t, ok := m["t"].(string); ok {
			name = t
		}
		h, err := zygo.MakeHash(nil, name, env)
		if err != nil {
			panic(err)
		}
		for _, kv := range m["v"].([]interface{}) {
			p := kv.([]interface{})
			if err := h.HashSet(dec(env, p[0]), dec(env, p[1])); err != nil {
				panic(err)
			}
		}
		return h
	}
	panic(fmt.Sprintf("dec: %v", m))
}

// print: prints a value and reads the text back, as data and evaluated.
func init() {
	ops["print"] = func(c Case) map[string]interface{} {
		env := newEnv("", true)
		out := []interface{}{}
		for _, v := range c["vals"].([]interface{}) {
			out = append(out, printOne(env, v, c))
		}
		return M{"r": out}
	}
}

// a name for each definition, which may only be rebound to a value of its type
var fresh int

func printOne(env *zygo.Zlisp, v interface{}, c Case) interface{} {
	pretty, _ := c["pretty"].(bool)
	src, _ := v.(map[string]interface{})["src"].(string)
	m := M{}
	var x zygo.Sexp
	if src != "" {
		var err error
		x, err = env.EvalString(src)
		if err != nil {
			return M{"srcerr": err.Error()}
		}
		m["was"] = enc(env, x, 0)
	} else {
		x = dec(env, v)
	}
	env.AddGlobal("zvx", x)
	get := func(f func() string) (s string, pan string) {
		defer func() {
			if r := recover(); r != nil {
				pan = fmt.Sprint(r)
			}
		}()
		return f(), ""
	}
	texts := []M{}
	put := func(via, s, pan string) {
		if pan != "" {
			texts = append(texts, M{"via": via, "panic": pan})
			return
		}
		for i := range texts {
			if texts[i]["t"] == s {
				texts[i]["via"] = texts[i]["via"].(string) + "," + via
				return
			}
		}
		texts = append(texts, M{"via": via, "t": s})
	}
	if pretty {
		env.EvalString("(pretty true)")
	}
	s, pan := get(func() string { return x.SexpString(nil) })
	put("SexpString", s, pan)
	s, pan = get(func() string { return x.SexpString(zygo.NewPrintState()) })
	put("SexpString-state", s, pan)
	s, pan = get(func() string {
		y, err := env.EvalString("(str zvx)")
		if err != nil {
			panic(err)
		}
		return y.(*zygo.SexpStr).S
	})
	put("str", s, pan)
	if pretty {
		env.EvalString("(pretty false)")
	}
	env.Clear()
	for _, t := range texts {
		if t["panic"] != nil {
			continue
		}
		txt := t["t"].(string)
		reads := M{}
		p := envParser(env)
		p.ResetAddNewInput(strings.NewReader(txt))
		xs, err, pan := tokens(p)
		reads["parse"] = readReply(env, xs, err, pan, true)
		env.Clear()
		ev := func(how string, f func() (zygo.Sexp, error)) {
			y, err, pan := guarded(f)
			r := readReply(env, []zygo.Sexp{y}, err, pan, true)
			if err == nil && pan == "" {
				env.AddGlobal("zvy", y)
				q, err, pan := guarded(func() (zygo.Sexp, error) { return env.EvalString("(== zvx zvy)") })
				r["eq"] = readReply(env, []zygo.Sexp{q}, err, pan, true)
			}
			env.Clear()
			reads[how] = r
		}
		env.AddGlobal("zvt", &zygo.SexpStr{S: txt})
		ev("read", func() (zygo.Sexp, error) { return env.EvalString("(read zvt)") })
		ev("quote", func() (zygo.Sexp, error) { return env.EvalString("(quote " + txt + ")") })
		ev("listed", func() (zygo.Sexp, error) { return env.EvalString("(first (quote (" + txt + " 1)))") })
		if e, _ := c["eval"].(bool); e {
			ev("eval", func() (zygo.Sexp, error) { return env.EvalString(txt) })
			ev("def", func() (zygo.Sexp, error) {
				fresh++
				z := fmt.Sprintf("zvz%d", fresh)
				return env.EvalString("(def " + z + " " + txt + ") " + z)
			})
			ev("arg", func() (zygo.Sexp, error) { return env.EvalString("(first (list " + txt + "))") })
			ev("infix", func() (zygo.Sexp, error) {
				fresh++
				z := fmt.Sprintf("zvz%d", fresh)
				return env.EvalString("{" + z + " = " + txt + "; " + z + "}")
			})
			ev("source", func() (zygo.Sexp, error) {
				f, e := os.CreateTemp(".", "pr")
				if e != nil {
					panic(e)
				}
				fresh++
				z := fmt.Sprintf("zvz%d", fresh)
				f.WriteString("(def " + z + " " + txt + ")")
				f.Close()
				defer os.Remove(f.Name())
				env.AddGlobal("zvf", &zygo.SexpStr{S: f.Name()})
				return env.EvalString("(source zvf) " + z)
			})
		}
		t["reads"] = reads
	}
	m["texts"] = texts
	return m
}
