package main

import (
	"fmt"
	"math"
	"strconv"

	"github.com/glycerine/zygomys/v9/zygo"
)

var numEnv *zygo.Zlisp
var numUses int

func limbs(u uint64) []interface{} {
	r := []interface{}{}
	for i := 0; i < 6; i++ {
		r = append(r, int(u&4095))
		u >>= 12
	}
	return r
}

func mkNum(x interface{}) (zygo.Sexp, []interface{}) {
	p := x.([]interface{})
	u, err := strconv.ParseUint(p[1].(string), 16, 64)
	if err != nil {
		panic(err)
	}
	k := p[0].(string)
	var s zygo.Sexp
	switch k {
	case "int":
		s = &zygo.SexpInt{Val: int64(u)}
	case "u64":
		s = &zygo.SexpUint64{Val: u}
	case "char":
		c := rune(int32(uint32(u)))
		s = &zygo.SexpChar{Val: c}
		u = uint64(int64(c))
	case "float":
		s = &zygo.SexpFloat{Val: math.Float64frombits(u)}
	default:
		panic(k)
	}
	return s, []interface{}{k, limbs(u)}
}

func numRes(v zygo.Sexp, err error, p string) []interface{} {
	if p != "" {
		return []interface{}{"panic", p}
	}
	if err != nil {
		return []interface{}{"err", err.Error()}
	}
	switch t := v.(type) {
	case *zygo.SexpInt:
		return []interface{}{"int", limbs(uint64(t.Val))}
	case *zygo.SexpUint64:
		return []interface{}{"u64", limbs(t.Val)}
	case *zygo.SexpChar:
		return []interface{}{"char", limbs(uint64(int64(t.Val)))}
	case *zygo.SexpFloat:
		return []interface{}{"float", limbs(math.Float64bits(t.Val))}
	case *zygo.SexpBool:
		if t.Val {
			return []interface{}{"bool", 1}
		}
		return []interface{}{"bool", 0}
	}
	return []interface{}{"other", fmt.Sprintf("%T", v)}
}

func init() {
	// {op:num, a:[kind,hex], b:[kind,hex], form:"prefix"|"infix"|"alias"|"apply"}
	ops["num"] = func(c Case) map[string]interface{} {
		if numEnv == nil || numUses > 3000 {
			if numEnv != nil {
				numEnv.Close()
			}
			numEnv = newEnv("", true)
			numUses = 0
		}
		numUses++
		env := numEnv
		a, ea := mkNum(c["a"])
		b, eb := mkNum(c["b"])
		env.AddGlobal("zva", a)
		env.AddGlobal("zvb", b)
		text := func(op string) string {
			switch str(c, "form") {
			case "infix":
				return fmt.Sprintf("{zva %s zvb}", op)
			case "apply":
				return fmt.Sprintf("(apply %s [zva zvb])", op)
			case "elem":
				return fmt.Sprintf("(%s (aget [zva] 0) (hget (hash q: zvb) (quote q)))", op)
			}
			return fmt.Sprintf("(%s zva zvb)", op)
		}
		r := M{"a": ea, "b": eb}
		cmp := []interface{}{}
		for _, op := range []string{"<", ">", "==", "!=", "<=", ">="} {
			cmp = append(cmp, []interface{}{op, numRes(evs(env, text(op)))})
		}
		r["cmp"] = cmp
		ar := []interface{}{}
		for _, op := range []string{"+", "-", "*", "/", "mod"} {
			ar = append(ar, []interface{}{op, numRes(evs(env, text(op)))})
		}
		r["arith"] = ar
		return r
	}
}
