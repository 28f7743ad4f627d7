package main

// op sandbox: programs in sandboxed interpreters, in a directory of canaries
// (the working directory), watched for every access to it.  What is seen of the
// world after each program is returned, and which secrets it said.

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

var inoFd = -1
var inoNames = map[int32]string{}

func inoWatch(dir string) error {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return err
	}
	wd, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_OPEN|syscall.IN_ACCESS|syscall.IN_MODIFY|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_ATTRIB)
	if err != nil {
		return err
	}
	inoFd = fd
	inoNames[int32(wd)] = dir
	return nil
}

// the events so far, each once
func inoRead() []string {
	seen := map[string]bool{}
	buf := make([]byte, 1<<16)
	for {
		n, _ := syscall.Read(inoFd, buf)
		if n <= 0 {
			break
		}
		for p := 0; p+16 <= n; {
			mask := binary.LittleEndian.Uint32(buf[p+4:])
			ln := int(binary.LittleEndian.Uint32(buf[p+12:]))
			name := strings.TrimRight(string(buf[p+16:p+16+ln]), "\x00")
			p += 16 + ln
			what := "other"
			switch {
			case mask&(syscall.IN_OPEN|syscall.IN_ACCESS) != 0:
				what = "read"
			case mask&syscall.IN_MODIFY != 0:
				what = "write"
			case mask&syscall.IN_CREATE != 0:
				what = "create"
			case mask&(syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO) != 0:
				what = "delete"
			}
			if name == "" {
				name = "."
			}
			seen[what+" "+name] = true
		}
	}
	r := []string{}
	for s := range seen {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

var worldEvents []string

// what a script must leave alone
func world() M {
	for _, e := range inoRead() {
		worldEvents = append(worldEvents, e)
		if len(worldEvents) > 8 {
			worldEvents = worldEvents[:8]
		}
	}
	env := os.Environ()
	sort.Strings(env)
	h := fnv.New64()
	h.Write([]byte(strings.Join(env, "\n")))
	wd, _ := os.Getwd()
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &ru)
	ev := append([]string{}, worldEvents...)
	if len(ev) == 0 {
		ev = []string{"none"}
	}
	return M{"files": strings.Join(ev, ", "), "env": fmt.Sprintf("%x", h.Sum64()), "procs": int(ru.Minflt % 1000000), "cwd": wd}
}

var secrets = []string{"zvs3cr3tF", "zvs3cr3tE", "zvs3cr3tC"}

func said(texts ...string) []string {
	r := []string{}
	for _, s := range secrets {
		for _, t := range texts {
			if strings.Contains(t, s) {
				r = append(r, s)
				break
			}
		}
	}
	return r
}

func sandboxEnv(mode string) *zygo.Zlisp {
	env := zygo.NewZlispSandbox()
	switch mode {
	case "std":
		env.StandardSetup()
	case "demo":
		zygo.RegisterDemoStructs()
		env.StandardSetup()
		env.ImportDemoData()
	case "dup":
		env.StandardSetup()
		env = env.Duplicate()
	case "clone":
		env.StandardSetup()
		env = env.Clone()
	}
	return env
}

// evaluates prog by the route and returns all texts that come of it
func sandboxRun(env *zygo.Zlisp, prog, api string) (texts []string) {
	defer func() {
		if p := recover(); p != nil {
			texts = append(texts, fmt.Sprint(p))
		}
		texts = append(texts, takeOut())
	}()
	zygo.VerifBudget = 20000
	defer func() { zygo.VerifBudget = 0 }()
	var v zygo.Sexp
	var err error
	switch api {
	case "loadrun":
		err = env.LoadString(prog + "\n")
		if err == nil {
			v, err = env.Run()
		}
	case "exprs":
		p := env.NewParser()
		p.ResetAddNewInput(strings.NewReader(prog + "\n"))
		var xs []zygo.Sexp
		xs, err = p.ParseTokens()
		p.Stop()
		if err == nil {
			v, err = env.EvalExpressions(xs)
		}
	default:
		v, err = env.EvalString(prog + "\n")
	}
	if err != nil {
		texts = append(texts, err.Error())
		env.Clear()
		return
	}
	if v != nil {
		texts = append(texts, v.SexpString(nil))
	}
	return
}

// a program run by the command line tool in sandbox mode, in the same directory
func sandboxCmd(c Case) map[string]interface{} {
	var args []string
	for _, a := range c["args"].([]interface{}) {
		args = append(args, a.(string))
	}
	before := world()
	cmd := exec.Command(str(c, "zygo"), args...)
	cmd.Stdin = strings.NewReader(str(c, "stdin"))
	tmp, _ := os.CreateTemp(os.Getenv("ZV_TMP"), "zvcmd")
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	cmd.Stdout, cmd.Stderr = tmp, tmp
	t := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	b, _ := os.ReadFile(tmp.Name())
	after := world()
	after["procs"] = before["procs"] // the tool itself
	rc := 0
	if err != nil {
		rc = 1
	}
	out := string(b)
	if len(out) > 1<<20 {
		out = out[:1<<20]
	}
	return M{"world": before, "runs": []interface{}{M{"after": after, "said": said(out)}}, "out": out, "rc": rc}
}

func init() {
	ops["sandboxcmd"] = func(c Case) map[string]interface{} {
		if inoFd < 0 {
			if err := inoWatch("."); err != nil {
				return M{"drivererr": "inotify: " + err.Error()}
			}
		}
		worldEvents = nil
		return sandboxCmd(c)
	}
	ops["sandbox"] = func(c Case) map[string]interface{} {
		if inoFd < 0 {
			if err := inoWatch("."); err != nil {
				return M{"drivererr": "inotify: " + err.Error()}
			}
		}
		inoRead()
		worldEvents = nil
		before := world()
		runs := []interface{}{}
		unbound := []interface{}{}
		texts := []interface{}{}
		for i, p := range c["progs"].([]interface{}) {
			env := sandboxEnv(str(c, "mode"))
			ts := sandboxRun(env, p.(string), str(c, "api"))
			env.Close()
			after := world()
			runs = append(runs, M{"after": after, "said": said(ts...)})
			all := strings.Join(ts, "\n")
			if b, _ := c["texts"].(bool); b {
				if len(all) > 300 {
					all = all[:300]
				}
				texts = append(texts, all)
			}
			if strings.Contains(all, "not found") {
				unbound = append(unbound, i)
			}
		}
		return M{"world": before, "runs": runs, "unbound": unbound, "texts": texts}
	}
}
