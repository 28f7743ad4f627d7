package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

var omapEnv *zygo.Zlisp
var omapUses int

var bigInt = regexp.MustCompile(`\b7\d\d\d\d\d\b`)

func evs(env *zygo.Zlisp, s string) (zygo.Sexp, error, string) {
	return guarded(func() (zygo.Sexp, error) { return env.EvalString(s) })
}

func fnv32(s string) int64 { h := fnv.New32(); h.Write([]byte(s)); return int64(h.Sum32()) }

// key universes: each entry is (expression, class of the key it denotes)
func mkKey(env *zygo.Zlisp, spec string) zygo.Sexp {
	p := strings.SplitN(spec, ":", 2)
	switch p[0] {
	case "sym":
		return env.MakeSymbol(p[1])
	case "str":
		return &zygo.SexpStr{S: p[1]}
	case "int":
		n, _ := strconv.ParseInt(p[1], 10, 64)
		return &zygo.SexpInt{Val: n}
	case "intsym": // integer colliding with a symbol
		return &zygo.SexpInt{Val: int64(env.MakeSymbol(p[1]).Number())}
	case "intstr": // integer colliding with a string
		return &zygo.SexpInt{Val: fnv32(p[1])}
	case "chr":
		n, _ := strconv.Atoi(p[1])
		return &zygo.SexpChar{Val: rune(n)}
	case "chrsym":
		return &zygo.SexpChar{Val: rune(env.MakeSymbol(p[1]).Number())}
	case "arr1": // one-element array
		return env.NewSexpArray([]zygo.Sexp{mkKey(env, p[1])})
	case "arr2":
		return env.NewSexpArray([]zygo.Sexp{mkKey(env, p[1]), &zygo.SexpInt{Val: 1}})
	}
	panic("bad key " + spec)
}

func init() {
	// {op:omap, keys:[spec], ops:[["set",k,v]|["del",k]|["get",k]], ctor:n}
	ops["omap"] = func(c Case) map[string]interface{} {
		if omapEnv == nil || omapUses > 100 {
			if omapEnv != nil {
				omapEnv.Close()
			}
			omapEnv = newEnv("", true)
			omapUses = 0
		}
		omapUses++
		env := omapEnv
		keyspecs := strs(c, "keys")
		keys := []zygo.Sexp{}
		for i, ks := range keyspecs {
			k := mkKey(env, ks)
			keys = append(keys, k)
			env.AddGlobal(fmt.Sprintf("kk%d", i), k)
		}
		encs := []interface{}{}
		for _, k := range keys {
			// a one-element array key is stored as its element
			for {
				a, ok := k.(*zygo.SexpArray)
				if !ok || len(a.Val) != 1 {
					break
				}
				k = a.Val[0]
			}
			encs = append(encs, enc(env, k, 0))
		}
		keyIdx := func(k interface{}) int {
			for i := range encs {
				if reflect.DeepEqual(encs[i], k) {
					return i + 1
				}
			}
			return 99
		}
		intOf := func(x interface{}) int {
			m, ok := x.(M)
			if !ok || m["k"] != "int" {
				return -2
			}
			n, _ := strconv.Atoi(m["v"].(string))
			return n
		}
		var rng []interface{}
		env.AddFunction("omtr", func(e *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
			ev := []interface{}{keyIdx(enc(e, args[0], 0))}
			if len(args) > 1 {
				ev = append(ev, intOf(enc(e, args[1], 0)))
			}
			rng = append(rng, ev)
			return zygo.SexpNull, nil
		})
		steps := []interface{}{}
		pan := ""
		run := func(s string) (zygo.Sexp, error) {
			v, err, p := evs(env, s)
			if p != "" {
				pan = s + ": " + p
				return zygo.SexpNull, fmt.Errorf("panic %s", p)
			}
			return v, err
		}
		ctor := "(def hh (hash"
		for _, x := range list(c, "ctor") {
			op := x.([]interface{})
			ctor += fmt.Sprintf(" kk%d %d", int(op[1].(float64))-1, int(op[2].(float64)))
		}
		_, err := run(ctor + "))")
		if err != nil {
			return M{"err": err.Error()}
		}
		switch str(c, "via") {
		case "json":
			_, err = run("(def hh (unjson (json hh)))")
		case "msgpack":
			_, err = run("(def hh (unmsgpack (msgpack hh)))")
		}
		if err != nil {
			return M{"err": err.Error()}
		}
		observe := func(op []interface{}, operr bool) M {
			o := M{"op": M{"name": op[0], "k": op[1], "v": op[2]}, "operr": operr}
			ival := func(s string) int {
				v, err := run(s)
				if err != nil {
					return -1
				}
				return intOf(enc(env, v, 0))
			}
			n := ival("(len hh)")
			o["len"] = n
			kl := []interface{}{}
			if v, err := run("(keys hh)"); err == nil {
				if a, ok := v.(*zygo.SexpArray); ok {
					for _, k := range a.Val {
						kl = append(kl, keyIdx(enc(env, k, 0)))
					}
				}
			} else {
				kl = append(kl, -1)
			}
			o["keys"] = kl
			prs := []interface{}{}
			for i := 0; i < n && i < 30; i++ {
				v, err := run(fmt.Sprintf("(hpair hh %d)", i))
				ev := []interface{}{-1, -1}
				if err == nil {
					l, _ := enc(env, v, 0).(M)["v"].([]interface{})
					if len(l) == 2 {
						ev = []interface{}{keyIdx(l[0]), intOf(l[1])}
					}
				}
				prs = append(prs, ev)
			}
			o["pairs"] = prs
			// positions outside of 0..len-1 are errors
			oob := 0
			for _, i := range []int{-1, n, n + 1} {
				if _, err := run(fmt.Sprintf("(hpair hh %d)", i)); err == nil {
					oob++
				}
			}
			o["oob"] = oob
			rng = []interface{}{}
			if _, err := run("{for k, v := range hh { (omtr k v) }}"); err != nil {
				rng = append(rng, []interface{}{-1, -1})
			}
			o["range"] = rng
			rng = []interface{}{}
			if _, err := run("{for k := range hh { (omtr k) }}"); err != nil {
				rng = append(rng, []interface{}{-1})
			}
			r1 := []interface{}{}
			for _, e := range rng {
				r1 = append(r1, e.([]interface{})[0])
			}
			o["range1"] = r1
			rng = []interface{}{}
			if _, err := run("(range k v hh (omtr k v))"); err != nil {
				rng = append(rng, []interface{}{-1, -1})
			}
			o["rangem"] = rng
			ints := func(s string) []interface{} {
				r := []interface{}{}
				for _, x := range bigInt.FindAllString(s, -1) {
					n, _ := strconv.Atoi(x)
					r = append(r, n)
				}
				return r
			}
			if v, err := run("(str hh)"); err == nil {
				st := v.(*zygo.SexpStr).S
				o["str"] = ints(st)
				o["strok"] = strings.HasPrefix(st, "{") && strings.HasSuffix(st, "}")
			} else {
				o["str"] = []interface{}{-1}
				o["strok"] = false
			}
			if boolean(c, "json") {
				// JSON members in order, without the bookkeeping keys
				js := []interface{}{}
				ord := []interface{}{}
				if v, err := run("(json hh)"); err == nil {
					by := v.(*zygo.SexpRaw).Val
					dec := json.NewDecoder(strings.NewReader(string(by)))
					if t, err := dec.Token(); err == nil && t == json.Delim('{') {
						for dec.More() {
							kt, err := dec.Token()
							if err != nil {
								js = append(js, []interface{}{-1, -1})
								break
							}
							var val interface{}
							if dec.Decode(&val) != nil {
								js = append(js, []interface{}{-1, -1})
								break
							}
							kn := kt.(string)
							ki := 99
							for i, ks := range keyspecs {
								if ks == "sym:"+kn || ks == "str:"+kn {
									ki = i + 1
								}
							}
							switch {
							case kn == "Atype":
							case kn == "zKeyOrder":
								l, _ := val.([]interface{})
								for _, x := range l {
									oi := 99
									for i, ks := range keyspecs {
										if s, ok := x.(string); ok && (ks == "sym:"+s || ks == "str:"+s) {
											oi = i + 1
										}
									}
									ord = append(ord, oi)
								}
							default:
								f, _ := val.(float64)
								js = append(js, []interface{}{ki, int(f)})
							}
						}
					} else {
						js = append(js, []interface{}{-1, -1})
					}
				} else {
					js = append(js, []interface{}{-1, -1})
				}
				o["json"] = js
				o["jsonord"] = ord
				rt := []interface{}{}
				for _, q := range []string{"(unjson (json hh))", "(unmsgpack (msgpack hh))"} {
					one := []interface{}{}
					if v, err := run(q); err == nil {
						if h, ok := v.(*zygo.SexpHash); ok {
							for _, p := range encHash(env, h, 0).(M)["v"].([]interface{}) {
								pp := p.([]interface{})
								one = append(one, []interface{}{keyIdx(pp[0]), intOf(pp[1])})
							}
						} else {
							one = append(one, []interface{}{-1, -1})
						}
					} else {
						one = append(one, []interface{}{-1, -1})
					}
					rt = append(rt, one)
				}
				o["rt"] = rt
			}
			get, getd := []interface{}{}, []interface{}{}
			for i := range keys {
				g := ival(fmt.Sprintf("(hget hh kk%d)", i))
				get = append(get, g)
				getd = append(getd, ival(fmt.Sprintf("(hget hh kk%d 5)", i)))
			}
			o["get"] = get
			o["getd"] = getd
			e := 0
			if v, err := run("(empty? hh)"); err == nil {
				if b, ok := v.(*zygo.SexpBool); ok && b.Val {
					e = 1
				}
			}
			o["empty"] = e
			return o
		}
		if boolean(c, "obs0") {
			steps = append(steps, observe([]interface{}{"nop", 1, 0}, false))
		}
		for _, x := range list(c, "ops") {
			op := x.([]interface{})
			name := op[0].(string)
			k := int(op[1].(float64))
			var err error
			switch name {
			case "set":
				v := int(op[2].(float64))
				_, err = run(fmt.Sprintf("(hset hh kk%d %d)", k-1, v))
			case "setd": // assignment through a dot path (symbol keys)
				v := int(op[2].(float64))
				_, err = run(fmt.Sprintf("{hh.%s = %d}", strings.SplitN(keyspecs[k-1], ":", 2)[1], v))
			case "seti": // infix assignment through an index
				v := int(op[2].(float64))
				_, err = run(fmt.Sprintf("{hh[kk%d] = %d}", k-1, v))
			case "del":
				_, err = run(fmt.Sprintf("(hdel hh kk%d)", k-1))
			}
			steps = append(steps, observe([]interface{}{name, k, op[2]}, err != nil))
		}
		r := M{"steps": steps}
		if pan != "" {
			r["panic"] = pan
		}
		return r
	}
}
