// zvdriver: runs batches of cases against the real interpreter.
// usage: zvdriver CASES.ndjson OUT.ndjson [perCaseTimeoutMs]
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"
)

type Case = map[string]interface{}

var ops = map[string]func(c Case) map[string]interface{}{}

var (
	curIdx   int64 = -1
	curStart int64
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage")
		os.Exit(2)
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	outf, err := os.OpenFile(os.Args[2], os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)
	if err != nil {
		panic(err)
	}
	tmo := 10000
	if len(os.Args) > 3 {
		tmo, _ = strconv.Atoi(os.Args[3])
	}
	if os.Getenv("ZV_MAXSTACK") != "" {
		n, _ := strconv.Atoi(os.Getenv("ZV_MAXSTACK"))
		debug.SetMaxStack(n)
	}
	initOut()
	w := bufio.NewWriterSize(outf, 1<<16)
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			i := atomic.LoadInt64(&curIdx)
			if i >= 0 {
				st := atomic.LoadInt64(&curStart)
				if time.Now().UnixMilli()-st > int64(tmo) && atomic.LoadInt64(&curIdx) == i {
					os.Exit(97)
				}
			}
		}
	}()
	sc := bufio.NewReaderSize(in, 1<<20)
	for n := 0; ; n++ {
		line, err := sc.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		var c Case
		if e := json.Unmarshal(line, &c); e != nil {
			panic(e)
		}
		atomic.StoreInt64(&curStart, time.Now().UnixMilli())
		atomic.StoreInt64(&curIdx, int64(n))
		// flush what precedes, so that a crash is attributed to this case
		if b, _ := c["flush"].(bool); b {
			w.Flush()
		}
		r := runOp(c)
		atomic.StoreInt64(&curIdx, -1)
		b, e := json.Marshal(r)
		if e != nil {
			b, _ = json.Marshal(map[string]interface{}{"drivererr": e.Error()})
		}
		w.Write(b)
		w.WriteByte('\n')
		if n%32 == 0 {
			w.Flush()
		}
		if err != nil {
			break
		}
	}
	w.Flush()
	outf.Close()
}

func runOp(c Case) map[string]interface{} {
	op, _ := c["op"].(string)
	f, ok := ops[op]
	if !ok {
		return map[string]interface{}{"drivererr": "unknown op " + op}
	}
	return f(c)
}
