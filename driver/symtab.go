package main

import (
	"fmt"

	"github.com/glycerine/zygomys/v9/zygo"
)

const macgen = "(defmac mgs [] (let [g (gensym)] ^(quote ~g)))"

func init() {
	ops["symtab"] = func(c Case) map[string]interface{} {
		first := newEnv("", boolean(c, "std"))
		fam := []*zygo.Zlisp{first}
		defer func() { first.Close() }()
		script := func(env *zygo.Zlisp, s string) (*zygo.SexpSymbol, string) {
			v, err, p := guarded(func() (zygo.Sexp, error) { return env.EvalString(s) })
			if p != "" {
				return nil, s + " panic: " + p
			}
			if err != nil {
				return nil, s + ": " + err.Error()
			}
			y, ok := v.(*zygo.SexpSymbol)
			if !ok {
				return nil, s + ": not a symbol: " + v.SexpString(nil)
			}
			return y, ""
		}
		if boolean(c, "macro") {
			if _, err := first.EvalString(macgen); err != nil {
				return M{"drivererr": err.Error()}
			}
		}
		// the probe tells which counter value comes next
		probe := first.MakeSymbol("zvprobe")
		base := probe.Number() + 1
		events := []interface{}{}
		syms := []*zygo.SexpSymbol{}
		symev := []interface{}{}
		add := func(o, want string, s *zygo.SexpSymbol) {
			events = append(events, M{"o": o, "want": want, "name": s.Name(), "num": s.Number()})
			symev = append(symev, M{"name": s.Name(), "num": s.Number()})
			syms = append(syms, s)
		}
		add("mk", "zvprobe", probe)
		for _, x := range list(c, "ops") {
			op := x.(map[string]interface{})
			env := fam[num(op, "i")-1]
			route := str(op, "r")
			switch str(op, "o") {
			case "dup":
				fam = append(fam, env.Duplicate())
				events = append(events, M{"o": "dup"})
			case "clone":
				fam = append(fam, env.Clone())
				events = append(events, M{"o": "clone"})
			case "mk":
				name := str(op, "name")
				if g, ok := op["g"]; ok {
					name = fmt.Sprintf("%s%d", name, base+int(g.(float64)))
				}
				var s *zygo.SexpSymbol
				e := ""
				switch route {
				case "str2sym":
					s, e = script(env, fmt.Sprintf("(str2sym %q)", name))
				case "quote":
					s, e = script(env, fmt.Sprintf("(quote %s)", name))
				case "inlist":
					s, e = script(env, fmt.Sprintf("(first (rest (quote (zz %s))))", name))
				case "json":
					s, e = script(env, fmt.Sprintf("(aget (keys (unjson (raw `{\"%s\":1}`))) 0)", name))
				case "load": // interned by the compiler, then asked for through the API
					if err := env.LoadString(fmt.Sprintf("(def %s 1)", name)); err != nil {
						e = err.Error()
					}
					env.Run()
					s = env.MakeSymbol(name)
				default:
					s = env.MakeSymbol(name)
				}
				if e != "" {
					return M{"fail": e}
				}
				add("mk", name, s)
			case "gen":
				var s *zygo.SexpSymbol
				e := ""
				switch route {
				case "script":
					s, e = script(env, "(gensym)")
				case "prefix":
					s, e = script(env, fmt.Sprintf("(gensym %q)", str(op, "name")))
				case "macro":
					s, e = script(env, "(mgs)")
				default:
					n := str(op, "name")
					if n == "" {
						n = "__gensym"
					}
					s = env.GenSymbol(n)
				}
				if e != "" {
					return M{"fail": e}
				}
				add("gen", "", s)
			}
		}
		r := M{"events": events, "syms": symev}
		// compare and look up in every member of the family in turn
		eqs := []interface{}{}
		n := 0
		for a := range syms {
			for b := range syms {
				if len(syms) > 12 && (a*7+b*3)%5 != 0 {
					continue
				}
				env := fam[n%len(fam)]
				n++
				v, err := env.Compare(syms[a], syms[b])
				eq := 0
				if err != nil {
					eq = -1
				} else if v == 0 {
					eq = 1
				}
				eqs = append(eqs, []interface{}{a + 1, b + 1, eq})
			}
		}
		if boolean(c, "scripteq") {
			for a := 0; a < len(syms); a++ {
				env := fam[a%len(fam)]
				b := (a*5 + 1) % len(syms)
				first.AddGlobal("zva", syms[a])
				first.AddGlobal("zvb", syms[b])
				v, err, p := guarded(func() (zygo.Sexp, error) { return env.EvalString("(== zva zvb)") })
				eq := -1
				if bv, ok := v.(*zygo.SexpBool); ok && err == nil && p == "" {
					eq = 0
					if bv.Val {
						eq = 1
					}
				}
				eqs = append(eqs, []interface{}{a + 1, b + 1, eq})
			}
		}
		r["eqs"] = eqs
		env := fam[len(fam)-1]
		h, err := zygo.MakeHash(nil, "hash", env)
		if err != nil {
			return M{"fail": err.Error()}
		}
		for k, s := range syms {
			if err := h.HashSet(s, &zygo.SexpInt{Val: int64(k + 1)}); err != nil {
				return M{"fail": "hset " + err.Error()}
			}
		}
		r["hlen"] = zygo.HashCountKeys(h)
		hg := []interface{}{}
		for k, s := range syms {
			e2 := fam[k%len(fam)]
			v, err := h.HashGet(e2, s)
			x := -1
			if iv, ok := v.(*zygo.SexpInt); ok && err == nil {
				x = int(iv.Val)
			}
			hg = append(hg, x)
		}
		r["hget"] = hg
			return r
	}
}
