package main

// op host: texts handed to fresh interpreters; how each call came back.

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// hostCall hands text in by one of the script-facing entry points; the events
// are those of spec/Host.tla
func hostCall(env *zygo.Zlisp, text, api string) (events []interface{}, note string) {
	ev := func(k string) { events = append(events, k) }
	defer func() {
		zygo.VerifBudget = 0
		if p := recover(); p != nil {
			ev("panic")
			note = fmt.Sprint(p)
			if len(note) > 300 {
				note = note[:300]
			}
		}
	}()
	ev("call")
	var v zygo.Sexp
	var err error
	switch api {
	case "loadrun":
		err = env.LoadString(text)
		if err == nil {
			v, err = env.Run()
		}
	case "file":
		err = env.LoadFile(strings.NewReader(text))
		if err == nil {
			v, err = env.Run()
		}
	case "parse":
		p := env.NewParser()
		p.ResetAddNewInput(strings.NewReader(text))
		var xs []zygo.Sexp
		xs, err = p.ParseTokens()
		p.Stop()
		if err == nil {
			v = env.NewSexpArray(xs)
		}
	case "exprs":
		p := env.NewParser()
		p.ResetAddNewInput(strings.NewReader(text + "\n"))
		var xs []zygo.Sexp
		xs, err = p.ParseTokens()
		p.Stop()
		if err == nil {
			v, err = env.EvalExpressions(xs)
		}
	case "evalfun":
		p := env.NewParser()
		p.ResetAddNewInput(strings.NewReader(text + "\n"))
		var xs []zygo.Sexp
		xs, err = p.ParseTokens()
		p.Stop()
		if err == nil {
			v, err = zygo.EvalFunction(env, "eval", xs)
		}
	case "infixwrap":
		v, err = env.EvalString(env.ReplLineInfixWrap(text) + " ")
	default:
		v, err = env.EvalString(text)
	}
	if err != nil {
		m := err.Error()
		note = m
		if len(note) > 300 {
			note = note[:300]
		}
		if strings.Contains(m, zygo.VerifBudgetErr.Error()) {
			ev("budget")
			note = ""
		} else {
			ev("error")
		}
		env.Clear()
		return
	}
	if v == nil {
		ev("neither")
		return
	}
	// a value that is returned can be shown
	s := v.SexpString(nil)
	if len(s) > 60 {
		s = s[:60]
	}
	note = s
	ev("value")
	return
}

func init() {
	ops["host"] = func(c Case) map[string]interface{} {
		budget := int64(num(c, "budget"))
		if budget == 0 {
			budget = 20000
		}
		runs := []interface{}{}
		notes := []interface{}{}
		var env *zygo.Zlisp
		shared, _ := c["shared"].(bool)
		for _, t := range c["texts"].([]interface{}) {
			if env == nil || !shared {
				env = newEnv(str(c, "mode"), c["nostd"] == nil)
			}
			zygo.VerifSteps, zygo.VerifBudget = 0, budget
			ev, note := hostCall(env, t.(string), str(c, "api"))
			// and it is ready for the next
			zygo.VerifSteps, zygo.VerifBudget = 0, budget
			ev2, note2 := hostCall(env, "(+ 40 2)", "")
			if len(ev2) != 2 {
				note += " | then: " + note2
			}
			runs = append(runs, append(ev, ev2...))
			notes = append(notes, note)
			if !shared {
				env.Close()
			}
			takeOut()
		}
		return M{"runs": runs, "notes": notes}
	}
}
