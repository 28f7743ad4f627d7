package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"
)

// codec: sends values through the JSON and msgpack encoders and back.
func init() {
	ops["codec"] = func(c Case) map[string]interface{} {
		env := newEnv("", true)
		other := newEnv("", true)
		other.EvalString("(def zvsym (quote (zz yy xx b a)))")
		out := []interface{}{}
		for _, v := range c["vals"].([]interface{}) {
			out = append(out, codecOne(env, other, v))
		}
		return M{"r": out}
	}
}

func codecOne(env, other *zygo.Zlisp, v interface{}) interface{} {
	res := M{}
	var x zygo.Sexp
	if src, _ := v.(map[string]interface{})["src"].(string); src != "" {
		var err error
		x, err = env.EvalString(src)
		if err != nil {
			env.Clear()
			return M{"srcerr": err.Error()}
		}
		res["was"] = enc(env, x, 0)
	} else {
		x = dec(env, v)
	}
	env.AddGlobal("zvx", x)
	j, m, d := []interface{}{}, []interface{}{}, []interface{}{}
	ev := func(e *zygo.Zlisp, src string) (zygo.Sexp, string, string) {
		y, err, pan := guarded(func() (zygo.Sexp, error) { return e.EvalString(src) })
		if err != nil || pan != "" {
			e.Clear()
			s := pan
			if err != nil {
				s = err.Error()
			}
			return nil, "err", s
		}
		return y, "ok", ""
	}
	text := func(how string, y zygo.Sexp, st, msg string) []byte {
		if st != "ok" {
			j = append(j, M{"how": how, "st": st, "msg": msg})
			return nil
		}
		var b []byte
		switch z := y.(type) {
		case *zygo.SexpRaw:
			b = z.Val
		case *zygo.SexpStr:
			b = []byte(z.S)
		default:
			j = append(j, M{"how": how, "st": fmt.Sprintf("not text: %T", y)})
			return nil
		}
		q := M{"how": how, "st": "ok", "valid": json.Valid(b)}
		if utf8.Valid(b) {
			q["t"] = string(b)
		} else {
			q["h"] = hex.EncodeToString(b)
		}
		j = append(j, q)
		return b
	}
	back := func(how string, e *zygo.Zlisp, y zygo.Sexp, st, msg string) {
		if st != "ok" {
			d = append(d, M{"how": how, "st": st, "msg": msg})
			return
		}
		v := enc(e, y, 0)
		if h, ok := y.(*zygo.SexpHash); ok {
			e.AddGlobal("zvh", h)
			n, st, msg := ev(e, "(len zvh)")
			k, ok := n.(*zygo.SexpInt)
			if st != "ok" || !ok || int(k.Val) != len(v.(M)["v"].([]interface{})) {
				d = append(d, M{"how": how + "-len", "st": "length", "msg": msg, "v": v})
				return
			}
		}
		d = append(d, M{"how": how, "st": st, "v": v})
	}
	y, st, msg := ev(env, "(json zvx)")
	jt := text("json", y, st, msg)
	y, st, msg = ev(env, "(json2 zvx)")
	text("json2", y, st, msg)
	y, st, msg = ev(env, "(unjson (json zvx))")
	back("unjson", env, y, st, msg)
	if st == "ok" {
		env.AddGlobal("zvu", y)
		y, st, msg = ev(env, "(json zvu)")
		text("json-again", y, st, msg)
		y, st, msg = ev(env, "(unmsgpack (msgpack (unjson (json zvu))))")
		back("unjson-json-msgpack", env, y, st, msg)
	}
	y, st, msg = ev(env, "(msgpack zvx)")
	var mt []byte
	if st == "ok" {
		if z, ok := y.(*zygo.SexpRaw); ok {
			mt = z.Val
			m = append(m, M{"how": "msgpack", "st": "ok", "h": hex.EncodeToString(z.Val)})
		} else {
			m = append(m, M{"how": "msgpack", "st": fmt.Sprintf("not raw: %T", y)})
		}
	} else {
		m = append(m, M{"how": "msgpack", "st": st, "msg": msg})
	}
	y, st, msg = ev(env, "(unmsgpack (msgpack zvx))")
	back("unmsgpack", env, y, st, msg)
	// another interpreter, which numbers its symbols differently
	if jt != nil {
		other.AddGlobal("zvj", &zygo.SexpRaw{Val: jt})
		y, st, msg = ev(other, "(unjson zvj)")
		back("unjson-elsewhere", other, y, st, msg)
	}
	if mt != nil {
		other.AddGlobal("zvm", &zygo.SexpRaw{Val: mt})
		y, st, msg = ev(other, "(unmsgpack zvm)")
		back("unmsgpack-elsewhere", other, y, st, msg)
	}
	// the value itself is not changed by encoding it
	back("itself", env, x, "ok", "")
	res["j"], res["m"], res["d"] = j, m, d
	return res
}
