From e8aa8d2fa0aa2a4be11b205e6de4adc1630acd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:27 +0000
Subject: [PATCH 01/64] verif: step budget hook in the VM run loop (build tag
 verif)

---
 zygo/environment.go |  5 ++++-
 zygo/verif_off.go   |  6 ++++++
 zygo/verif_on.go    | 28 ++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 1 deletion(-)
 create mode 100644 zygo/verif_off.go
 create mode 100644 zygo/verif_on.go

diff --git a/zygo/environment.go b/zygo/environment.go
index f6f9d51..9df4bb6 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -893,7 +893,10 @@ func (env *Zlisp) Run() (Sexp, error) {
 			fmt.Printf("\n ====== in '%s', now running the above.\n",
 				env.curfunc.name)
 		}
-		err := instr.Execute(env)
+		err := env.verifStep()
+		if err == nil {
+			err = instr.Execute(env)
+		}
 		if err != nil {
 			env.restoreControlState(runState)
 			env.pc = functionSize(env.curfunc)
diff --git a/zygo/verif_off.go b/zygo/verif_off.go
new file mode 100644
index 0000000..3a714a9
--- /dev/null
+++ b/zygo/verif_off.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package zygo
+
+// verifStep is a no-op unless built with the 'verif' tag; see verif_on.go.
+func (env *Zlisp) verifStep() error { return nil }
diff --git a/zygo/verif_on.go b/zygo/verif_on.go
new file mode 100644
index 0000000..5f8e7cd
--- /dev/null
+++ b/zygo/verif_on.go
@@ -0,0 +1,28 @@
+//go:build verif
+
+package zygo
+
+import "fmt"
+
+// Step budget for the VM run loop, used only by verification harnesses
+// (build tag 'verif').
+
+// VerifBudgetErr is returned by Run once the budget is exhausted.
+var VerifBudgetErr = fmt.Errorf("verif: step budget exhausted")
+
+// VerifSteps counts executed instructions; VerifBudget bounds them (0: no bound).
+var VerifSteps, VerifBudget int64
+
+// VerifOnStep, when set, observes the interpreter before every instruction.
+var VerifOnStep func(env *Zlisp)
+
+func (env *Zlisp) verifStep() error {
+	VerifSteps++
+	if VerifOnStep != nil {
+		VerifOnStep(env)
+	}
+	if VerifBudget > 0 && VerifSteps > VerifBudget {
+		return VerifBudgetErr
+	}
+	return nil
+}
-- 
2.43.0


From 5e3f84546e93f6a7271b789373ff418f3e59e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 02/64] fix: GenSymbol never returns a symbol that already
 exists

---
 zygo/environment.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 9df4bb6..f3d9d35 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -266,8 +266,13 @@ func (env *Zlisp) MakeSymbol(name string) *SexpSymbol {
 }
 
 func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
-	symname := prefix + strconv.Itoa(env.nextsymbol)
-	return env.MakeSymbol(symname)
+	for {
+		symname := prefix + strconv.Itoa(env.nextsymbol)
+		if _, exists := env.symtable[symname]; !exists {
+			return env.MakeSymbol(symname)
+		}
+		env.nextsymbol++
+	}
 }
 
 func (env *Zlisp) CurrentFunctionSize() int {
-- 
2.43.0


From d63d094fae9e2d8eabab71d549d357524d5f2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 03/64] fix: compare integers without overflow, uint64 in both
 directions, NaN against int and char

---
 zygo/comparisons.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 12da425..a4f6d77 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -53,6 +53,17 @@ func signumInt(i int64) int {
 	return 0
 }
 
+// cmpInt does not subtract: the difference can overflow.
+func cmpInt(a, b int64) int {
+	if a > b {
+		return 1
+	}
+	if a < b {
+		return -1
+	}
+	return 0
+}
+
 func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
@@ -85,17 +96,20 @@ func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 func compareInt(i *SexpInt, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(i.Val - e.Val), nil
+		return cmpInt(i.Val, e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(i.Val) - e.Val), nil
 	case *SexpChar:
-		return signumInt(i.Val - int64(e.Val)), nil
+		return cmpInt(i.Val, int64(e.Val)), nil
 	case *SexpReflect:
 		r := reflect.Value(e.Val)
 		ifa := r.Interface()
 		switch z := ifa.(type) {
 		case *int64:
-			return signumInt(i.Val - *z), nil
+			return cmpInt(i.Val, *z), nil
 		}
 		P("compareInt(): ifa = %v/%T", ifa, ifa)
 		P("compareInt(): r.Elem() = %v/%T", r.Elem(), r.Elem())
@@ -110,8 +124,11 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 func compareChar(c *SexpChar, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(int64(c.Val) - e.Val), nil
+		return cmpInt(int64(c.Val), e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(c.Val) - e.Val), nil
 	case *SexpChar:
 		return signumInt(int64(c.Val) - int64(e.Val)), nil
@@ -312,17 +329,17 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 func compareUint64(i *SexpUint64, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpUint64:
-		return signumUint64(i.Val - e.Val), nil
+		return cmpUint64(i.Val, e.Val), nil
 	}
 	errmsg := fmt.Sprintf("err 101: cannot compare %T to %T", i, expr)
 	return 0, errors.New(errmsg)
 }
 
-func signumUint64(i uint64) int {
-	if i > 0 {
+func cmpUint64(a, b uint64) int {
+	if a > b {
 		return 1
 	}
-	if i < 0 {
+	if a < b {
 		return -1
 	}
 	return 0
-- 
2.43.0


From a6ffa7e28ddf90a1b570e33c156baf64f6258fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 04/64] fix: hash delete keeps the key count, key order and
 one-element array keys consistent

---
 zygo/hashutils.go | 56 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b7ff70e..5370394 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -10,6 +10,20 @@ import (
 
 var NoAttachedGoStruct = fmt.Errorf("hash has no attach Go struct")
 
+// unwrapHashKey lets single number keys work: h[6]=10. Set, get
+// and delete must all agree on it. Arrays can be cyclic, so the
+// unwrapping is bounded.
+func unwrapHashKey(key Sexp) Sexp {
+	for depth := 0; depth < 100; depth++ {
+		arr, isArray := key.(*SexpArray)
+		if !isArray || len(arr.Val) != 1 {
+			return key
+		}
+		key = arr.Val[0]
+	}
+	return key
+}
+
 func HashExpression(env *Zlisp, expr Sexp) (int, error) {
 
 	hashcode, isList, err := hashHelper(expr)
@@ -199,11 +213,6 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 		if sym.isDot {
 			return hash.DotPathHashGet(env, sym)
 		}
-
-	case *SexpArray:
-		if len(sym.Val) == 1 {
-			key = sym.Val[0]
-		}
 	}
 
 	// this is kind of a hack
@@ -223,6 +232,7 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 }
 
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
+	key = unwrapHashKey(key)
 	hashval, err := HashExpression(env, key)
 	if err != nil {
 		return SexpNull, err
@@ -348,12 +358,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	if _, isComment := val.(*SexpComment); isComment {
 		return fmt.Errorf("HashSet: val cannot be comment")
 	}
-	if arr, isArray := key.(*SexpArray); isArray {
-		na := len(arr.Val)
-		if na == 1 {
-			key = arr.Val[0] // let single number keys work: h[6]=10
-		}
-	}
+	key = unwrapHashKey(key)
 
 	err := hash.TypeCheckField(key, val)
 	if err != nil {
@@ -397,6 +402,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 }
 
 func (hash *SexpHash) HashDelete(key Sexp) error {
+	key = unwrapHashKey(key)
 	hashval, err := HashExpression(nil, key)
 	if err != nil {
 		return err
@@ -408,11 +414,16 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 		return nil
 	}
 
-	hash.NumKeys--
 	for i, pair := range arr {
 		res, err := hash.Env.Compare(pair.Head, key)
 		if err == nil && res == 0 {
-			hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
+			if len(arr) == 1 {
+				delete(hash.Map, hashval)
+			} else {
+				hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
+			}
+			hash.NumKeys--
+			hash.forgetKeyOrder(key)
 			break
 		}
 	}
@@ -420,6 +431,21 @@ func (hash *SexpHash) HashDelete(key Sexp) error {
 	return nil
 }
 
+// forgetKeyOrder drops a deleted key, so that setting it again
+// puts it last and lists it once. It makes a new slice: the old
+// one may be shared with a clone.
+func (hash *SexpHash) forgetKeyOrder(key Sexp) {
+	kept := make([]Sexp, 0, len(hash.KeyOrder))
+	for _, k := range hash.KeyOrder {
+		res, err := hash.Env.Compare(k, key)
+		if err == nil && res == 0 {
+			continue
+		}
+		kept = append(kept, k)
+	}
+	hash.KeyOrder = kept
+}
+
 func HashCountKeys(hash *SexpHash) int {
 	var num int
 	for _, arr := range hash.Map {
@@ -958,7 +984,7 @@ func compareHash(a *SexpHash, bs Sexp) (int, error) {
 func (p *SexpHash) CopyMap() *map[int][]*SexpPair {
 	cp := make(map[int][]*SexpPair)
 	for k, v := range p.Map {
-		cp[k] = v
+		cp[k] = append([]*SexpPair(nil), v...)
 	}
 	return &cp
 }
@@ -970,7 +996,7 @@ func (p *SexpHash) CloneFrom(src *SexpHash) {
 	p.TypeName = src.TypeName
 	p.Map = *(src.CopyMap())
 
-	p.KeyOrder = src.KeyOrder
+	p.KeyOrder = append([]Sexp(nil), src.KeyOrder...)
 	p.GoStructFactory = src.GoStructFactory
 	p.NumKeys = src.NumKeys
 	p.GoMethods = src.GoMethods
-- 
2.43.0


From 83a459ead813252f6e2d6d0d50f5f685652aea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 05/64] fix: range loop variables take the key and value of
 every entry, whatever their types

---
 zygo/generator.go | 10 ++++++++++
 zygo/scopes.go    | 10 ++++++++++
 zygo/vm.go        | 30 +++++++++++++++++++++++++++++-
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index cf5f7e5..a61860d 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -212,6 +212,9 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		switch opname {
 		case "def":
 			instr = PopStackPutEnvInstr{lhs}
+			if isRangeKeyCall(args[1]) {
+				instr = RangeKeyBindInstr{lhs}
+			}
 		case "set":
 			Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
 			instr = UpdateInstr{lhs}
@@ -1147,6 +1150,13 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 	return nil
 }
 
+// isRangeKeyCall recognises the source of the loop variable in
+// the lowered form of {for k := range src { ... }}
+func isRangeKeyCall(expr Sexp) bool {
+	pair, isPair := expr.(*SexpPair)
+	return isPair && isSymbolNamed(pair.Head, "__rangeKey")
+}
+
 func isQuotedSymbol(list *SexpPair) (unquotedSymbol Sexp, isQuo bool) {
 	head := list.Head
 	switch h := head.(type) {
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 8bd062a..4cb2561 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -248,6 +248,16 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 	return nil
 }
 
+// RebindSymbol binds sym in the innermost scope, replacing any earlier
+// binding there whatever its type was.
+func (stack *Stack) RebindSymbol(sym *SexpSymbol, expr Sexp) error {
+	if stack.IsEmpty() {
+		panic("empty stack!!")
+	}
+	stack.elements[stack.tos].(*Scope).Map[sym.number] = expr
+	return nil
+}
+
 func (stack *Stack) DeleteSymbolFromTopOfStackScope(sym *SexpSymbol) error {
 	if stack.IsEmpty() {
 		panic("empty stack!!")
diff --git a/zygo/vm.go b/zygo/vm.go
index 9cd6543..6c67e09 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -550,12 +550,40 @@ func (b BindlistInstr) Execute(env *Zlisp) error {
 	}
 
 	for i, bindThisSym := range b.syms {
-		env.LexicalBindSymbol(bindThisSym, arr[i])
+		// a destructuring definition is fresh each time: successive hash
+		// entries of a range loop need not have the same type.
+		err = env.linearstack.RebindSymbol(bindThisSym, arr[i])
+		if err != nil {
+			return err
+		}
 	}
 	env.pc++
 	return nil
 }
 
+// bind the loop variable of a one-variable range loop, afresh on
+// every iteration: successive keys need not have the same type.
+type RangeKeyBindInstr struct {
+	sym *SexpSymbol
+}
+
+func (p RangeKeyBindInstr) InstrString() string {
+	return fmt.Sprintf("rangeKeyBind %s", p.sym.name)
+}
+
+func (p RangeKeyBindInstr) Execute(env *Zlisp) error {
+	expr, err := env.datastack.PopExpr()
+	if err != nil {
+		return err
+	}
+	expr, err = env.RValue(expr)
+	if err != nil {
+		return err
+	}
+	env.pc++
+	return env.linearstack.RebindSymbol(p.sym, expr)
+}
+
 type VectorizeInstr int
 
 func (s VectorizeInstr) InstrString() string {
-- 
2.43.0


From 1b59fb5d916a36dcb1e7743b731c7502de5d53d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 06/64] fix: tail self-calls evaluate like ordinary calls

Only calls really in tail position qualify (not let or array operands,
assert arguments, package bodies), the name is resolved when the call is
made, the arity is checked, and each iteration gets a fresh function scope
so that closures of earlier iterations keep their variables.
---
 zygo/expressions.go |   8 +++
 zygo/generator.go   | 129 ++++++++++++++------------------------
 zygo/vm.go          | 149 ++++++++++++--------------------------------
 3 files changed, 97 insertions(+), 189 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 48f3daa..fab8a0f 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -717,6 +717,14 @@ func (sf *SexpFunction) Copy() *SexpFunction {
 	return &cp
 }
 
+// sameCodeAs is true for closures made by the same fn or defn form.
+func (sf *SexpFunction) sameCodeAs(other *SexpFunction) bool {
+	if sf == nil || other == nil || sf.user || other.user {
+		return false
+	}
+	return len(sf.fun) > 0 && len(sf.fun) == len(other.fun) && &sf.fun[0] == &other.fun[0]
+}
+
 func isLazyFormalSymbol(sym *SexpSymbol) bool {
 	return sym != nil && sym.isSigil && sym.sigil == "#"
 }
diff --git a/zygo/generator.go b/zygo/generator.go
index a61860d..f636064 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -7,12 +7,11 @@ import (
 var NoExpressionsFound = fmt.Errorf("No expressions found")
 
 type Generator struct {
-	env            *Zlisp
-	funcname       string
-	Tail           bool
-	scopes         int
-	instructions   []Instruction
-	knownFunctions map[int]*SexpFunction
+	env          *Zlisp
+	funcname     string
+	Tail         bool
+	scopes       int
+	instructions []Instruction
 }
 
 type Loop struct {
@@ -31,7 +30,6 @@ func NewGenerator(env *Zlisp) *Generator {
 	gen := new(Generator)
 	gen.env = env
 	gen.instructions = make([]Instruction, 0)
-	gen.knownFunctions = make(map[int]*SexpFunction)
 	// tail marks whether or not we are in the tail position
 	gen.Tail = false
 	// scopes is the number of extra (non-function) scopes we've created
@@ -40,9 +38,7 @@ func NewGenerator(env *Zlisp) *Generator {
 }
 
 func (gen *Generator) NewSubGenerator() *Generator {
-	subgen := NewGenerator(gen.env)
-	subgen.knownFunctions = gen.knownFunctions
-	return subgen
+	return NewGenerator(gen.env)
 }
 
 func (gen *Generator) AddInstructions(instr []Instruction) {
@@ -53,6 +49,16 @@ func (gen *Generator) AddInstruction(instr Instruction) {
 	gen.instructions = append(gen.instructions, instr)
 }
 
+// generateNonTail generates an operand: whatever consumes its value still
+// has to run, so no call within it is in tail position.
+func (gen *Generator) generateNonTail(expr Sexp) error {
+	oldtail := gen.Tail
+	gen.Tail = false
+	err := gen.Generate(expr)
+	gen.Tail = oldtail
+	return err
+}
+
 func (gen *Generator) GenerateBegin(expressions []Sexp) error {
 	size := len(expressions)
 	oldtail := gen.Tail
@@ -85,15 +91,11 @@ func buildSexpFun(
 	name string,
 	funcargs *SexpArray,
 	funcbody []Sexp,
-	orig Sexp,
-	knownFunctions map[int]*SexpFunction) (*SexpFunction, error) {
+	orig Sexp) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
 	gen := NewGenerator(env)
-	if knownFunctions != nil {
-		gen.knownFunctions = knownFunctions
-	}
 	gen.Tail = true
 
 	if len(name) == 0 {
@@ -129,9 +131,6 @@ func buildSexpFun(
 
 	sfun := gen.env.MakeFunction(gen.funcname, nargs, varargs, nil, orig)
 	sfun.SetFormalSymbols(argsyms)
-	if len(name) > 0 {
-		gen.knownFunctions[env.MakeSymbol(name).number] = sfun
-	}
 
 	//VPrintf("\n in buildSexpFun(): DumpFunction just before %v args go onto stack\n", len(argsyms))
 	if Working {
@@ -174,7 +173,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig)
 	if err != nil {
 		return err
 	}
@@ -200,7 +199,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		dup = false
 		Q("def sees assign to pair, using AssignInstr{}")
 		instr = AssignInstr{}
-		err := gen.Generate(args[0])
+		err := gen.generateNonTail(args[0])
 		if err != nil {
 			return err
 		}
@@ -223,8 +222,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		}
 	}
 
-	gen.Tail = false
-	err := gen.Generate(args[1])
+	err := gen.generateNonTail(args[1])
 	if err != nil {
 		return err
 	}
@@ -271,7 +269,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -320,7 +318,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -497,7 +495,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 
 	if name == "letseq" {
 		for i, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -505,7 +503,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 		}
 	} else if name == "let" {
 		for _, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -528,7 +526,7 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 	if len(args) != 1 {
 		return WrongNargs
 	}
-	err := gen.Generate(args[0])
+	err := gen.generateNonTail(args[0])
 	if err != nil {
 		return err
 	}
@@ -546,6 +544,11 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 		return WrongNargs
 	}
 
+	// more items may follow the one being included
+	oldtail := gen.Tail
+	gen.Tail = false
+	defer func() { gen.Tail = oldtail }()
+
 	var err error
 	var exps []Sexp
 
@@ -668,25 +671,15 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 		return gen.Generate(expr)
 	}
 
-	oldtail := gen.Tail
-	gen.Tail = false
-	if oldtail && sym.name == gen.funcname {
-		err := gen.GenerateCallArgsForFunction(gen.LookupKnownFunction(sym), args)
-		if err != nil {
-			return err
-		}
-		// to do a tail call
-		// pop off all the extra scopes
-		// then jump to beginning of function
-		for i := 0; i < gen.scopes; i++ {
-			gen.AddInstruction(RemoveScopeInstr{})
-		}
-		gen.AddInstruction(PrepareCallInstr{sym, len(args)})
-		gen.AddInstruction(GotoInstr{1}) // goto 1 instead of 0 to avoid adding a new scope
+	call := CallExprInstr{callee: sym, args: append([]Sexp(nil), args...)}
+	if gen.Tail && sym.name == gen.funcname {
+		// a call in tail position to what is, unless the name was rebound,
+		// the running function: re-use its frame. The instruction finds
+		// out at runtime, and drops our extra scopes and the function scope.
+		gen.AddInstruction(TailCallExprInstr{CallExprInstr: call, scopes: gen.scopes + 1})
 	} else {
-		gen.AddInstruction(CallExprInstr{callee: sym, args: append([]Sexp(nil), args...)})
+		gen.AddInstruction(call)
 	}
-	gen.Tail = oldtail
 	return nil
 }
 
@@ -701,36 +694,6 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	return nil
 }
 
-func (gen *Generator) LookupKnownFunction(sym *SexpSymbol) *SexpFunction {
-	if sym == nil {
-		return nil
-	}
-	if gen.knownFunctions != nil {
-		if function := gen.knownFunctions[sym.number]; function != nil {
-			return function
-		}
-	}
-	x, err, _ := gen.env.LexicalLookupSymbol(sym, nil)
-	if err != nil {
-		return nil
-	}
-	function, _ := x.(*SexpFunction)
-	return function
-}
-
-func (gen *Generator) GenerateCallArgsForFunction(function *SexpFunction, args []Sexp) error {
-	for i, expr := range args {
-		if function != nil && function.IsLazyCallArg(i) {
-			gen.AddInstruction(PushLazyArgInstr{expr: expr})
-			continue
-		}
-		if err := gen.Generate(expr); err != nil {
-			return err
-		}
-	}
-	return nil
-}
-
 func (gen *Generator) GenerateInfix(args []Sexp) error {
 	arr, empty, err := InfixArgsToArray("infix", args)
 	if err != nil {
@@ -867,7 +830,7 @@ func (gen *Generator) Generate(expr Sexp) error {
 
 func (gen *Generator) GenerateAll(expressions []Sexp) error {
 	for _, expr := range expressions {
-		err := gen.Generate(expr)
+		err := gen.generateNonTail(expr)
 		if err != nil {
 			return err
 		}
@@ -1137,8 +1100,7 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		}
 	}
 
-	gen.Tail = false
-	err := gen.Generate(args[lastpos])
+	err := gen.generateNonTail(args[lastpos])
 	if err != nil {
 		return err
 	}
@@ -1242,10 +1204,10 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				gen.Generate(quotebody[1])
+				gen.generateNonTail(quotebody[1])
 				return nil
 			} else if sym.name == "unquote-splicing" {
-				gen.Generate(quotebody[1])
+				gen.generateNonTail(quotebody[1])
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
@@ -1518,8 +1480,10 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 	// to aim at when cleaning up.
 	symPkgName := gen.env.GenSymbol(pkgName)
 
+	// the packaging code comes after the last form: none is a tail call.
 	oldtail := gen.Tail
 	gen.Tail = false
+	defer func() { gen.Tail = oldtail }()
 
 	gen.AddInstruction(AddScopeInstr{Name: pkgName})
 	gen.AddInstruction(PushStackmarkInstr{sym: symPkgName})
@@ -1533,7 +1497,6 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 		}
 	}
 
-	gen.Tail = oldtail
 	err := gen.Generate(expressions[size-1])
 	if err != nil {
 		return err
@@ -1588,7 +1551,11 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	}
 	for i := range xs {
 		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
-		err := gen.Generate(xs[i])
+		generate := gen.Generate
+		if n > 1 {
+			generate = gen.generateNonTail
+		}
+		err := generate(xs[i])
 		if err != nil {
 			return err
 		}
diff --git a/zygo/vm.go b/zygo/vm.go
index 6c67e09..4c081e5 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -30,22 +30,6 @@ func (j JumpInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type GotoInstr struct {
-	location int
-}
-
-func (g GotoInstr) InstrString() string {
-	return fmt.Sprintf("goto %d", g.location)
-}
-
-func (g GotoInstr) Execute(env *Zlisp) error {
-	if g.location < 0 || g.location > env.CurrentFunctionSize() {
-		return OutOfBounds
-	}
-	env.pc = g.location
-	return nil
-}
-
 type BranchInstr struct {
 	direction bool
 	location  int
@@ -87,23 +71,6 @@ func (p PushInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type PushLazyArgInstr struct {
-	expr Sexp
-}
-
-func (p PushLazyArgInstr) InstrString() string {
-	if p.expr == nil {
-		return "push lazyArg nil"
-	}
-	return "push lazyArg " + p.expr.SexpString(nil)
-}
-
-func (p PushLazyArgInstr) Execute(env *Zlisp) error {
-	env.datastack.PushExpr(NewSourceLazyArg(env, p.expr))
-	env.pc++
-	return nil
-}
-
 type PopInstr int
 
 func (p PopInstr) InstrString() string {
@@ -364,6 +331,47 @@ func (c CallExprInstr) Execute(env *Zlisp) error {
 	return env.CallResolved(funcobj, callName, c.args)
 }
 
+// TailCallExprInstr is a call in tail position, from inside the function
+// that the callee is named after. When the callee turns out to be
+// that very function, the call re-uses the current frame.
+type TailCallExprInstr struct {
+	CallExprInstr
+	scopes int // to remove before re-entering: the function's own and those inside it
+}
+
+func (c TailCallExprInstr) InstrString() string {
+	return "tail-" + c.CallExprInstr.InstrString()
+}
+
+func (c TailCallExprInstr) Execute(env *Zlisp) error {
+	funcobj, err := env.EvalCallExpression(c.callee)
+	if err != nil {
+		return err
+	}
+	funcobj, callName, err := env.ResolveCallable(funcobj)
+	if err != nil {
+		return err
+	}
+	function, isFun := funcobj.(*SexpFunction)
+	if !isFun || !function.sameCodeAs(env.curfunc) {
+		return env.CallResolved(funcobj, callName, c.args)
+	}
+	if err := env.PrepareCallExprArgs(function, c.args); err != nil {
+		return err
+	}
+	for i := 0; i < c.scopes; i++ {
+		if err := env.linearstack.PopScope(); err != nil {
+			return err
+		}
+	}
+	if err := env.CallFunction(function, len(c.args)); err != nil {
+		return err
+	}
+	// we return directly to our own caller
+	_, _, err = env.addrstack.PopAddr()
+	return err
+}
+
 type DispatchInstr struct {
 	nargs int
 }
@@ -939,78 +947,3 @@ func (a PopScopeTransferToDataStackInstr) Execute(env *Zlisp) error {
 	env.datastack.PushExpr(stackClone)
 	return nil
 }
-
-type PrepareCallInstr struct {
-	sym   *SexpSymbol
-	nargs int
-}
-
-func (c PrepareCallInstr) InstrString() string {
-	return fmt.Sprintf("pre-call %s %d", c.sym.name, c.nargs)
-}
-
-func (c PrepareCallInstr) Execute(env *Zlisp) error {
-	if err := c.execute(env); err != nil {
-		return err
-	}
-	env.pc++
-	return nil
-}
-
-func (c PrepareCallInstr) execute(env *Zlisp) error {
-	_, ok := env.builtins[c.sym.number]
-	if ok {
-		return nil
-	}
-	var funcobj, indirectFuncName Sexp
-	var err error
-
-	funcobj, err, _ = env.LexicalLookupSymbol(c.sym, nil)
-
-	if err != nil {
-		return err
-	}
-	switch f := funcobj.(type) {
-	case *SexpSymbol:
-		if c.sym.isDot {
-
-			dotSymRef, dotLookupErr := dotGetSetHelper(env, c.sym.name, nil)
-			if dotLookupErr != nil {
-				return dotLookupErr
-			}
-			indirectFuncName = dotSymRef
-		} else {
-			indirectFuncName, err = dotGetSetHelper(env, f.name, nil)
-			if err != nil {
-				return fmt.Errorf("'%s' refers to symbol '%s', but '%s' could not be resolved: '%s'.",
-					c.sym.name, f.name, f.name, err)
-			}
-		}
-
-		switch g := indirectFuncName.(type) {
-		case *SexpFunction:
-			if !g.user {
-				nargs := c.nargs
-				if err := env.prepareLazyCallArgs(g, &nargs); err != nil {
-					return err
-				}
-				if g.varargs {
-					return env.wrangleOptargs(g.nargs, nargs)
-				}
-			}
-			return nil
-		}
-
-	case *SexpFunction:
-		if !f.user {
-			nargs := c.nargs
-			if err := env.prepareLazyCallArgs(f, &nargs); err != nil {
-				return err
-			}
-			if f.varargs {
-				return env.wrangleOptargs(f.nargs, nargs)
-			}
-		}
-	}
-	return nil
-}
-- 
2.43.0


From 898b1cbe764fdace7ecb56cdc31ad2fbbcfa8da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 07/64] fix: every form leaves exactly one value and reports
 its errors

and/or with no arguments panicked, errors inside and/or arms and syntax
quotes were dropped, empty begin/newScope/return/quote pushed nothing,
multiple assignment, func, struct and var left operands behind, break out
of a scope inside an and/or arm left the scope, and the main function grew
with every load.
---
 zygo/environment.go |  7 ++++
 zygo/func.go        |  8 -----
 zygo/generator.go   | 78 ++++++++++++++++++++++++++++++++++-----------
 zygo/vm.go          |  9 ++++++
 4 files changed, 76 insertions(+), 26 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index f3d9d35..0357979 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -632,6 +632,8 @@ func (env *Zlisp) CallUserFunction(
 			fmt.Sprintf("Error calling '%s': %v", name, err))
 	}
 
+	// whatever else the function left there is not part of its result
+	env.datastack.TruncateToSize(callState.datastackSize)
 	env.datastack.PushExpr(res)
 
 	for _, posthook := range env.after {
@@ -674,6 +676,11 @@ func (env *Zlisp) LoadExpressions(xs []Sexp) error {
 		return err
 	}
 
+	if env.curfunc == env.mainfunc && env.ReachedEnd() {
+		// everything loaded earlier has been run: let go of it.
+		env.mainfunc.fun = nil
+		env.pc = 0
+	}
 	env.mainfunc.fun = append(env.mainfunc.fun, gen.instructions...)
 	env.curfunc = env.mainfunc
 
diff --git a/zygo/func.go b/zygo/func.go
index 2462754..8e3fbb4 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -186,14 +186,6 @@ func FuncBuilder(env *Zlisp, name string,
 		return MissingFunction, err
 	}
 
-	// minimal sanity check that we return the number of arguments
-	// on the stack that are declared
-	if len(body) == 0 {
-		for range retHash.KeyOrder {
-			gen.AddInstruction(PushInstr{expr: SexpNull})
-		}
-	}
-
 	gen.AddInstruction(RemoveScopeInstr{})
 	gen.AddInstruction(ReturnInstr{nil}) // nil is the error returned
 
diff --git a/zygo/generator.go b/zygo/generator.go
index f636064..50e0548 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -64,6 +64,9 @@ func (gen *Generator) GenerateBegin(expressions []Sexp) error {
 	oldtail := gen.Tail
 	gen.Tail = false
 	if size == 0 {
+		// nothing to do still leaves a value
+		gen.Tail = oldtail
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 		//return NoExpressionsFound
 	}
@@ -384,17 +387,27 @@ func (gen *Generator) GenerateMacexpand(args []Sexp) error {
 
 func (gen *Generator) GenerateShortCircuit(or bool, args []Sexp) error {
 	size := len(args)
+	if size == 0 {
+		return WrongNargs
+	}
 
 	subgen := gen.NewSubGenerator()
 	subgen.scopes = gen.scopes
 	subgen.Tail = gen.Tail
 	subgen.funcname = gen.funcname
-	subgen.Generate(args[size-1])
+	err := subgen.Generate(args[size-1])
+	if err != nil {
+		return err
+	}
 	instructions := subgen.instructions
 
 	for i := size - 2; i >= 0; i-- {
 		subgen = gen.NewSubGenerator()
-		subgen.Generate(args[i])
+		subgen.scopes = gen.scopes
+		err = subgen.Generate(args[i])
+		if err != nil {
+			return err
+		}
 		subgen.AddInstruction(DupInstr(0))
 		subgen.AddInstruction(BranchInstr{or, len(instructions) + 2})
 		subgen.AddInstruction(PopInstr(0))
@@ -423,6 +436,7 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 	// we generate the cond bottom up, so i counts down.
 	for i := len(args)/2 - 1; i >= 0; i-- {
 		subgen.Reset()
+		subgen.scopes = gen.scopes
 		err := subgen.Generate(args[2*i])
 		if err != nil {
 			return err
@@ -454,9 +468,11 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateQuote(args []Sexp) error {
-	for _, expr := range args {
-		gen.AddInstruction(PushInstr{expr})
+	if len(args) == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
+		return nil
 	}
+	gen.AddInstruction(PushInstr{args[len(args)-1]})
 	return nil
 }
 
@@ -551,6 +567,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 
 	var err error
 	var exps []Sexp
+	any := false
 
 	var sourceItem func(item Sexp) error
 
@@ -563,6 +580,9 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 				}
 			}
 		case *SexpPair:
+			if !IsList(item) {
+				return fmt.Errorf("include: Expected a list, given the pair %v", item.SexpString(nil))
+			}
 			expr := item
 			for expr != SexpNull {
 				list := expr.(*SexpPair)
@@ -577,6 +597,11 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 				return err
 			}
 
+			// the value is that of the last file
+			if any {
+				gen.AddInstruction(PopInstr(0))
+			}
+			any = true
 			err = gen.GenerateBegin(exps)
 			if err != nil {
 				return err
@@ -595,6 +620,9 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 			return err
 		}
 	}
+	if !any {
+		gen.AddInstruction(PushInstr{SexpNull})
+	}
 
 	return nil
 }
@@ -689,7 +717,9 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	for i := 0; i < n; i++ {
 		gen.AddInstruction(PushInstr{args[i]})
 	}
-	gen.Generate(fun)
+	if err := gen.Generate(fun); err != nil {
+		return err
+	}
 	gen.AddInstruction(DispatchInstr{len(args)})
 	return nil
 }
@@ -744,6 +774,9 @@ func (gen *Generator) GenerateAssignment(expr *SexpPair, assignPos int) error {
 	// of return value flow, rather than exact lhs to rhs count equality.
 
 	for i := range rhs {
+		if i > 0 {
+			gen.AddInstruction(PopInstr(0))
+		}
 		err = gen.GenerateDef([]Sexp{lhs[i], rhs[i]}, "def")
 		if err != nil {
 			return err
@@ -1156,17 +1189,14 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	// in them too.
 	switch aaa := arg.(type) {
 	case *SexpArray:
-		gen.generateSyntaxQuoteArray(aaa)
-		return nil
+		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
 			break
 		}
-		gen.generateSyntaxQuoteList(arg)
-		return nil
+		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
-		gen.generateSyntaxQuoteHash(arg)
-		return nil
+		return gen.generateSyntaxQuoteHash(arg)
 	}
 	gen.AddInstruction(PushInstr{arg})
 	return nil
@@ -1204,10 +1234,11 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				gen.generateNonTail(quotebody[1])
-				return nil
+				return gen.generateNonTail(quotebody[1])
 			} else if sym.name == "unquote-splicing" {
-				gen.generateNonTail(quotebody[1])
+				if err := gen.generateNonTail(quotebody[1]); err != nil {
+					return err
+				}
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
@@ -1217,7 +1248,9 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 
 	for _, expr := range quotebody {
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err := gen.GenerateSyntaxQuote([]Sexp{expr}); err != nil {
+			return err
+		}
 	}
 
 	gen.AddInstruction(SquashInstr(0))
@@ -1240,7 +1273,9 @@ func (gen *Generator) generateSyntaxQuoteArray(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for _, expr := range arr.Val {
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err := gen.GenerateSyntaxQuote([]Sexp{expr}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1270,12 +1305,16 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 		}
 		// value first, since value comes second on rebuild
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{val})
+		if err := gen.GenerateSyntaxQuote([]Sexp{val}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{key})
+		if err := gen.GenerateSyntaxQuote([]Sexp{key}); err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1434,6 +1473,8 @@ func (gen *Generator) GenerateNewScope(expressions []Sexp) error {
 	oldtail := gen.Tail
 	gen.Tail = false
 	if size == 0 {
+		gen.Tail = oldtail
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 		//return NoExpressionsFound
 	}
@@ -1543,6 +1584,7 @@ func getQuotedSymbol(expr *SexpPair) (*SexpSymbol, error) {
 func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	n := len(xs)
 	if n == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 	}
 
diff --git a/zygo/vm.go b/zygo/vm.go
index 4c081e5..788d339 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -875,6 +875,7 @@ func (a AssignInstr) InstrString() string {
 	return "assign stack top to stack top -1"
 }
 
+// Execute leaves the assigned value on the stack, as assignment is an expression.
 func (a AssignInstr) Execute(env *Zlisp) error {
 	env.pc++
 	rhs, err := env.datastack.PopExpr()
@@ -885,6 +886,14 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
+	if err = a.assign(env, rhs); err != nil {
+		return err
+	}
+	env.datastack.PushExpr(rhs)
+	return nil
+}
+
+func (a AssignInstr) assign(env *Zlisp, rhs Sexp) error {
 	lhs, err := env.datastack.PopExpr()
 	if err != nil {
 		return err
-- 
2.43.0


From 2302e038e1c7e7cdf59485883267a4d0e06fe599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 08/64] fix: append and concat results do not share storage
 with each other

---
 zygo/arrayutils.go | 2 +-
 zygo/functions.go  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 43d2633..22eea26 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -25,7 +25,7 @@ func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
 		return SexpNull, fmt.Errorf("ConcatArray called with nil arr")
 	}
 	var res SexpArray
-	res.Val = arr.Val
+	res.Val = append([]Sexp{}, arr.Val...) // the result shares nothing with arr
 	for i, x := range rest {
 		switch t := x.(type) {
 		case *SexpArray:
diff --git a/zygo/functions.go b/zygo/functions.go
index a79173c..22e21a9 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -602,13 +602,14 @@ func AppendFunction(name string) ZlispUserFunction {
 
 		switch t := args[0].(type) {
 		case *SexpArray:
+			// limit the capacity: two results must not share their tail
 			switch name {
 			case "append":
-				return &SexpArray{Val: append(t.Val, args[1]), Env: env, Typ: t.Typ}, nil
+				return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], args[1]), Env: env, Typ: t.Typ}, nil
 			case "appendslice":
 				switch sl := args[1].(type) {
 				case *SexpArray:
-					return &SexpArray{Val: append(t.Val, sl.Val...), Env: env, Typ: t.Typ}, nil
+					return &SexpArray{Val: append(t.Val[:len(t.Val):len(t.Val)], sl.Val...), Env: env, Typ: t.Typ}, nil
 				default:
 					return SexpNull, fmt.Errorf("Second argument of appendslice must be slice")
 				}
-- 
2.43.0


From 92be5f742904e20fca0bdbce3e63715dc914f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 09/64] fix: eval sees the variables its calling function
 captured, and leaves no frame behind on an error

---
 zygo/functions.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/zygo/functions.go b/zygo/functions.go
index 22e21a9..2e9ed39 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -705,6 +705,16 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	startingDataStackSize := env.datastack.Size()
 
+	// the function whose code called eval: its captures are in scope
+	caller := env.curfunc
+	for i := 0; caller.user; i++ {
+		elem, err := env.addrstack.Get(i)
+		if err != nil {
+			break
+		}
+		caller = elem.(Address).function
+	}
+
 	gen := NewGenerator(env)
 	err := gen.GenerateBegin(args)
 	if err != nil {
@@ -718,15 +728,19 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	newfunc := ZlispFunction(gen.instructions)
 	orig := &SexpArray{Val: args}
 	sfun := env.MakeFunction("evalGeneratedFunction", 0, false, newfunc, orig)
+	sfun.parent = caller
 
+	callState := env.captureControlState()
 	err = env.CallFunction(sfun, 0)
 	if err != nil {
+		env.restoreControlState(callState)
 		return SexpNull, err
 	}
 
 	var resultSexp Sexp
 	resultSexp, err = env.Run()
 	if err != nil {
+		env.restoreControlState(callState)
 		return SexpNull, err
 	}
 
-- 
2.43.0


From 8adb00f204dde0be14713b2ef38dbedaf1c04920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 10/64] fix: apply and map give a builtin its own argument
 slice

---
 zygo/environment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 0357979..2fb0db2 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -865,7 +865,8 @@ func (env *Zlisp) FindObject(name string) (Sexp, bool) {
 func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 	//VPrintf("\n\n debug Apply not working on user funcs: fun = '%#v'   and args = '%#v'\n\n", fun, args)
 	if fun.user {
-		return fun.userfun(env, fun.name, args)
+		// a constructor may keep its args: do not hand it the caller's array
+		return fun.userfun(env, fun.name, append([]Sexp{}, args...))
 	}
 
 	callState := env.captureControlState()
-- 
2.43.0


From 11b9baa411d110801bcabc75feb8884cd95396b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 11/64] fix: resetting the lexer forgets everything about the
 previous text

What an interpreter read before (the look-back ring, the previous tokens, a
queued stream) decided how the next text was read: '-4' came back as a number
or as '-' followed by 4 depending on the last runes of the previous text.
---
 zygo/lexer.go  | 7 +++++++
 zygo/parser.go | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 58419cd..cb67eaf 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -200,6 +200,13 @@ func (lex *Lexer) Reset() {
 	lex.linenum = 1
 	lex.preBuiltinRune = 0
 	lex.buffer.Reset()
+	// nothing of an earlier text may influence how the next one is read.
+	lex.next = nil
+	lex.prevrune = 0
+	lex.priori = 0
+	lex.priorRune = [20]rune{}
+	lex.prevToken = Token{}
+	lex.prevPrevToken = Token{}
 }
 
 func (lex *Lexer) EmptyToken() Token {
diff --git a/zygo/parser.go b/zygo/parser.go
index b0b590d..56a71f8 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -66,6 +66,8 @@ func (p *Parser) Reset() {
 	}
 	p.sendMe = &ParserReply{}
 	p.yield = nil
+	p.inBacktick = false
+	p.recur = 0
 	p.lexer.Reset()
 }
 
@@ -91,6 +93,8 @@ func (p *Parser) ResetAddNewInput(s io.RuneScanner) {
 	}
 	p.yield = nil
 	p.sendMe = &ParserReply{}
+	p.inBacktick = false
+	p.recur = 0
 	p.lexer.Reset()
 	p.lexer.AddNextStream(s)
 }
-- 
2.43.0


From 7532d18bc50f6b1cbd7191aff2f3a9cedd82f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 12/64] fix: the end of a text ends its last token, and every
 open construct pauses the parser

The last token of a text without trailing white space was dropped, so was an
unfinished string, and '(a', '{ "a"' or '[a %' followed by more input lost or
misread what came next instead of asking for it.
---
 zygo/lexer.go  |  64 ++++++++++++++++++++
 zygo/parser.go | 156 +++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 188 insertions(+), 32 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index cb67eaf..6fd93af 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -146,6 +146,69 @@ type Lexer struct {
 
 	priori    int
 	priorRune [20]rune
+
+	resume *lexerResume
+}
+
+// lexerResume is where to pick up again when a text that seemed to have
+// ended is continued.
+type lexerResume struct {
+	numExpr        int
+	state          LexerState
+	prevrune       rune
+	tokens         []Token
+	buffer         string
+	prevToken      Token
+	prevPrevToken  Token
+	preBuiltinRune rune
+	linenum        int
+	priori         int
+	priorRune      [20]rune
+}
+
+// endText ends the last token of a text that is not followed by white space.
+// unfinished means that the text stopped inside of a literal instead. numExpr
+// and consumed tell what to go back to should the text be continued: the number
+// of complete expressions, and the tokens after them that were used already.
+func (lexer *Lexer) endText(numExpr int, consumed []Token) (unfinished bool, err error) {
+	switch lexer.state {
+	case LexerStrLit, LexerStrEscaped, LexerRuneLit, LexerRuneEscaped, LexerUnquote:
+		return true, nil
+	}
+	if lexer.resume == nil {
+		lexer.resume = &lexerResume{
+			numExpr:        numExpr,
+			state:          lexer.state,
+			prevrune:       lexer.prevrune,
+			tokens:         append([]Token{}, consumed...),
+			buffer:         lexer.buffer.String(),
+			prevToken:      lexer.prevToken,
+			prevPrevToken:  lexer.prevPrevToken,
+			preBuiltinRune: lexer.preBuiltinRune,
+			linenum:        lexer.linenum,
+			priori:         lexer.priori,
+			priorRune:      lexer.priorRune,
+		}
+	}
+	if lexer.state == LexerNormal && lexer.buffer.Len() == 0 {
+		return false, nil
+	}
+	return false, lexer.LexNextRune('\n')
+}
+
+func (lexer *Lexer) continueFrom(at *lexerResume) {
+	lexer.resume = nil
+	lexer.state = at.state
+	lexer.prevrune = at.prevrune
+	lexer.tokens = append(lexer.tokens[:0], at.tokens...)
+	lexer.buffer.Reset()
+	lexer.buffer.WriteString(at.buffer)
+	lexer.prevToken = at.prevToken
+	lexer.prevPrevToken = at.prevPrevToken
+	lexer.preBuiltinRune = at.preBuiltinRune
+	lexer.linenum = at.linenum
+	lexer.priori = at.priori
+	lexer.priorRune = at.priorRune
 }
 
 func (lexer *Lexer) AppendToken(tok Token) {
@@ -207,6 +270,7 @@ func (lex *Lexer) Reset() {
 	lex.priorRune = [20]rune{}
 	lex.prevToken = Token{}
 	lex.prevPrevToken = Token{}
+	lex.resume = nil
 }
 
 func (lex *Lexer) EmptyToken() Token {
diff --git a/zygo/parser.go b/zygo/parser.go
index 56a71f8..91e8dfa 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -27,6 +27,10 @@ type Parser struct {
 
 	inBacktick bool
 	recur      int64
+
+	// tokens of the current expression that were consumed at the top level,
+	// outside of any bracket.
+	topTokens []Token
 }
 
 type ParserReply struct {
@@ -82,6 +86,7 @@ func (p *Parser) Stop() error {
 }
 
 func (p *Parser) NewInput(s io.RuneScanner) {
+	p.continueText()
 	p.lexer.AddNextStream(s)
 }
 
@@ -151,7 +156,8 @@ tokFilled:
 
 	start.Head = expr
 
-	tok, err = lexer.PeekNextToken(0)
+	// pauses if the text ends here: it may continue with a backslash.
+	tok, err = parser.ParserPeekNextToken(0)
 	if err != nil {
 		return SexpNull, err
 	}
@@ -166,6 +172,10 @@ tokFilled:
 		}
 
 		// eat up the end paren
+		_, err = parser.ParserPeekNextToken(0)
+		if err != nil {
+			return SexpNull, err
+		}
 		tok, err = lexer.GetNextToken()
 		if err != nil {
 			return SexpNull, err
@@ -254,12 +264,27 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	lexer := parser.lexer
 	env := parser.env
 
+	// Inside of something we pause for more input. At the top, the end
+	// of the text ends the last token as well.
+	if depth > 0 {
+		_, err = parser.ParserPeekNextToken(0)
+	} else {
+		err = parser.peekTopLevelToken()
+	}
+	if err != nil {
+		return SexpEnd, err
+	}
+
 	//getAnother:
 	tok, err := lexer.GetNextToken()
 	if err != nil {
 		return SexpEnd, err
 	}
 
+	if depth == 0 {
+		parser.topTokens = append(parser.topTokens, tok)
+	}
+
 	switch tok.typ {
 	case TokenLParen:
 		exp, err := parser.ParseList(depth+1, TokenRParen)
@@ -274,32 +299,15 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 			return SexpNull, err
 		}
 
-		extra := 1
 		// skip past comments
-		for tok2.typ == TokenBeginBlockComment || tok2.typ == TokenComment {
-			if tok2.typ == TokenBeginBlockComment {
-				_, err = parser.ParserPeekNextToken(extra + 2)
-				if err != nil {
-					return SexpNull, err
-				}
-				// to discern the pattern:
-				//tok2 = lexer.tokens[extra]    // TokenComment
-				//tok3 := lexer.tokens[extra+1] // TokenEndBlockComment
-				//vv("tok2 = '%v' / '%#v' (extra=%v)", tok2.String(), tok2, extra)
-				//vv("tok3 = '%v' / '%#v'", tok3.String(), tok3)
-
-				tok2 = lexer.tokens[extra+2]
-				extra += 3
-			}
-			if tok2.typ == TokenComment {
-				_, err = parser.ParserPeekNextToken(extra)
-				if err != nil {
-					return SexpNull, err
-				}
-				//vv("tok2 = '%v' / '%#v'", tok2.String(), tok2)
-				tok2 = lexer.tokens[extra]
-				extra++
+		extra := 1
+		for tok2.typ == TokenBeginBlockComment || tok2.typ == TokenComment || tok2.typ == TokenEndBlockComment {
+			_, err = parser.ParserPeekNextToken(extra)
+			if err != nil {
+				return SexpNull, err
 			}
+			tok2 = lexer.tokens[extra]
+			extra++
 		}
 
 		switch tok2.typ {
@@ -324,7 +332,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 			return MakeHash(nil, "hash", env) // return empty hash
 		case TokenString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra)
+			_, err = parser.ParserPeekNextToken(extra)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { "name": value }, as in JSON?
 			second := lexer.tokens[extra]
@@ -340,7 +351,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 
 		case TokenBeginBacktickString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra + 1)
+			_, err = parser.ParserPeekNextToken(extra + 1)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { `name`: value }, as in JSON but with backtick quoted string this time?
 			second := lexer.tokens[extra]
@@ -360,26 +374,26 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		exp, err := parser.ParseInfix(depth + 1)
 		return exp, err
 	case TokenQuote:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parsePrefixed(depth)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("quote"), expr}), nil
 	case TokenCaret:
 		// '^' is now our syntax-quote symbol, not TokenBacktick, to allow go-style `string literals`.
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parsePrefixed(depth)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("syntaxQuote"), expr}), nil
 	case TokenTilde:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parsePrefixed(depth)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("unquote"), expr}), nil
 	case TokenTildeAt:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parsePrefixed(depth)
 		if err != nil {
 			return SexpNull, err
 		}
@@ -471,7 +485,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	case TokenSymbol:
 		if tok.str == "-" || tok.str == "+" {
 			// are we -Inf ?
-			tok2, err := parser.ParserPeekNextToken(0)
+			tok2, err := parser.peekAfterSign(depth)
 			if err != nil {
 				return SexpEnd, err
 			}
@@ -571,6 +585,7 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 		var err error
 		const depth0 int = 0
 		for {
+			p.topTokens = p.topTokens[:0]
 			expr, err = p.ParseExpression(depth0)
 			if err != nil || expr == SexpEnd {
 				p.sendMe.Err = err
@@ -760,3 +775,80 @@ func (parser *Parser) ParserPeekNextToken(extra int) (tok Token, err error) {
 	}
 	return
 }
+
+// peekTopLevelToken makes the next token available at the top level, outside
+// of any bracket. When the text ends there, that ends its last token too; we
+// ask for more input only if the text stopped inside of a literal.
+func (parser *Parser) peekTopLevelToken() error {
+	lexer := parser.lexer
+	for {
+		tok, err := lexer.PeekNextToken(0)
+		if err != nil || tok.typ != TokenEnd {
+			return err
+		}
+		unfinished, err := lexer.endText(len(parser.sendMe.Expr), parser.topTokens)
+		if err != nil || !unfinished {
+			return err
+		}
+		parser.sendMe.Err = ErrMoreInputNeeded
+		if !parser.yield(parser.sendMe) {
+			return ParserHaltRequested
+		}
+	}
+}
+
+// parsePrefixed parses the expression that a quote, unquote or other prefix
+// applies to.
+func (parser *Parser) parsePrefixed(depth int) (Sexp, error) {
+	if depth > 0 {
+		return parser.ParseExpression(depth + 1)
+	}
+	for {
+		err := parser.peekTopLevelToken()
+		if err != nil {
+			return SexpEnd, err
+		}
+		tok, err := parser.lexer.PeekNextToken(0)
+		if err != nil {
+			return SexpEnd, err
+		}
+		if tok.typ != TokenEnd {
+			return parser.ParseExpression(depth)
+		}
+		// nothing there yet to apply the prefix to.
+		parser.lexer.resume = nil
+		parser.sendMe.Err = ErrMoreInputNeeded
+		if !parser.yield(parser.sendMe) {
+			return SexpEnd, ParserHaltRequested
+		}
+	}
+}
+
+// peekAfterSign looks for the Inf that may follow a sign. A sign that ends
+// the text is complete at the top level, and so must not ask for more.
+func (parser *Parser) peekAfterSign(depth int) (tok Token, err error) {
+	lexer := parser.lexer
+	if depth > 0 {
+		return parser.ParserPeekNextToken(0)
+	}
+	tok, err = lexer.PeekNextToken(0)
+	if err != nil || tok.typ != TokenEnd {
+		return
+	}
+	unfinished, err := lexer.endText(len(parser.sendMe.Expr), parser.topTokens)
+	if err == nil && !unfinished {
+		tok, err = lexer.PeekNextToken(0)
+	}
+	return
+}
+
+// continueText undoes what the end of the text so far decided, if more
+// of the same text arrives after all.
+func (p *Parser) continueText() {
+	at := p.lexer.resume
+	if at == nil {
+		return
+	}
+	p.lexer.continueFrom(at)
+	p.sendMe.Expr = p.sendMe.Expr[:at.numExpr]
+}
-- 
2.43.0


From 10543539bfd7a10843ad01f6b5557f73ffabe211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 13/64] fix: report malformed rune literals, and let ~ be
 followed by any expression

---
 zygo/lexer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 6fd93af..6e03ef0 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -630,9 +630,8 @@ top:
 		if r == '\'' {
 			// closing single quote
 			lexer.buffer.WriteRune(r)
-			lexer.dumpBuffer()
 			lexer.state = LexerNormal
-			return nil
+			return lexer.dumpBuffer()
 		}
 		lexer.buffer.WriteRune(r)
 		return nil
@@ -649,12 +648,12 @@ top:
 	case LexerUnquote:
 		if r == '@' {
 			lexer.AppendToken(lexer.Token(TokenTildeAt, ""))
-		} else {
-			lexer.AppendToken(lexer.Token(TokenTilde, ""))
-			lexer.buffer.WriteRune(r)
+			lexer.state = LexerNormal
+			return nil
 		}
+		lexer.AppendToken(lexer.Token(TokenTilde, ""))
 		lexer.state = LexerNormal
-		return nil
+		goto top // r starts what is unquoted
 	case LexerFreshAssignOrColon:
 		lexer.state = LexerNormal
 
-- 
2.43.0


From 993bac76c6e4094086b4cb78ee1c281045f95900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 14/64] fix: names used by a builtin resolve in the function
 that called it

A function made by (func ...) inside another function had the builtin as its
parent and lost sight of everything its maker captured, globals included.
---
 zygo/environment.go | 21 ++++++++++++++++++---
 zygo/functions.go   | 13 ++-----------
 zygo/vm.go          |  4 ++--
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 2fb0db2..07084cf 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -1018,6 +1018,20 @@ func (env *Zlisp) ShowGlobalStack() error {
 	return err
 }
 
+// lexicalFunction returns the function whose code is running. While a builtin
+// runs that is the function that called it, since a builtin has no scope.
+func (env *Zlisp) lexicalFunction() *SexpFunction {
+	fun := env.curfunc
+	for i := 0; fun.user; i++ {
+		elem, err := env.addrstack.Get(i)
+		if err != nil {
+			break
+		}
+		fun = elem.(Address).function
+	}
+	return fun
+}
+
 func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, error, *Scope) {
 
 	// DotSymbols, named-argument labels, and question sigils evaluate to themselves.
@@ -1038,10 +1052,11 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 	}
 
 	// check the parent function lexical captured scopes, if parent available.
-	if env.curfunc.parent != nil {
+	curfunc := env.lexicalFunction()
+	if curfunc.parent != nil {
 		//P("checking non-nil parent...")
 		//exp, err, whichScope := env.curfunc.parent.ClosingLookupSymbol(sym, setVal)
-		exp, err, whichScope := env.curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
+		exp, err, whichScope := curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
 		switch err {
 		case nil:
 			//P("LookupSymbolUntilFunction('%s') found in curfunc.parent.ClosingLookupSymbol() scope '%s'\n", sym.name, whichScope.Name)
@@ -1054,7 +1069,7 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 
 		//fmt.Printf(" *** env.curfunc has closure of: %s\n", ClosureToString(env.curfunc, env))
 		//exp, err, scope = env.curfunc.ClosingLookupSymbol(sym, setVal)
-		exp, err, scope = env.curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
+		exp, err, scope = curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
 		switch err {
 		case nil:
 			//P("LexicalLookupSymbol('%s') found in env.curfunc.ClosingLookupSymbolUnfilFunc(1, false) in scope '%s'\n", sym.name, scope.Name)
diff --git a/zygo/functions.go b/zygo/functions.go
index 2e9ed39..51c4c99 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -705,16 +705,6 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	startingDataStackSize := env.datastack.Size()
 
-	// the function whose code called eval: its captures are in scope
-	caller := env.curfunc
-	for i := 0; caller.user; i++ {
-		elem, err := env.addrstack.Get(i)
-		if err != nil {
-			break
-		}
-		caller = elem.(Address).function
-	}
-
 	gen := NewGenerator(env)
 	err := gen.GenerateBegin(args)
 	if err != nil {
@@ -728,7 +718,8 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	newfunc := ZlispFunction(gen.instructions)
 	orig := &SexpArray{Val: args}
 	sfun := env.MakeFunction("evalGeneratedFunction", 0, false, newfunc, orig)
-	sfun.parent = caller
+	// the captures of the function whose code called eval are in scope
+	sfun.parent = env.lexicalFunction()
 
 	callState := env.captureControlState()
 	err = env.CallFunction(sfun, 0)
diff --git a/zygo/vm.go b/zygo/vm.go
index 788d339..d14a61d 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -848,8 +848,8 @@ func (a CreateClosureInstr) Execute(env *Zlisp) error {
 	myInvok := a.sfun.Copy()
 	myInvok.SetClosing(cls)
 	if env.curfunc != nil {
-		a.sfun.parent = env.curfunc
-		myInvok.parent = env.curfunc
+		myInvok.parent = env.lexicalFunction()
+		a.sfun.parent = myInvok.parent
 		//P("myInvok is copy of a.sfun '%s' with parent = %s", a.sfun.name, myInvok.parent.name)
 	}
 
-- 
2.43.0


From 0b357e7c04f1231a5ad7f3a82195ac8cf76e32d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 15/64] fix: creating a closure does not print every scope it
 captures

The text was thrown away, took time growing with everything ever defined, and
never ended (stack overflow) when a captured variable held a cyclic value.
---
 zygo/expressions.go | 11 -----------
 zygo/vm.go          | 11 -----------
 2 files changed, 22 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index fab8a0f..6a20497 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -757,18 +757,7 @@ func (sf *SexpFunction) IsLazyCallArg(i int) bool {
 }
 
 func (sf *SexpFunction) SetClosing(clos *Closing) {
-	ps4 := NewPrintStateWithIndent(4)
-	pre, err := sf.ShowClosing(clos.env, ps4, "prev")
-	_ = pre
-	panicOn(err)
-	newnew, err := sf.ShowClosing(clos.env, ps4, "newnew")
-	_ = newnew
-	panicOn(err)
-	//P("99999 for sfun = %p, in sfun.SetClosing(), prev value is %p = '%s'\n",
-	//	sf, sf.closingOverScopes, pre)
-	//P("88888 in sfun.SetClosing(), new  value is %p = '%s'\n", clos, newnew)
 	sf.closingOverScopes = clos
-	//P("in SetClosing() for '%s'/%p: my stack is: '%s'", sf.name, sf, clos.Stack.SexpString(nil))
 }
 
 func (sf *SexpFunction) ShowClosing(env *Zlisp, ps *PrintState, label string) (string, error) {
diff --git a/zygo/vm.go b/zygo/vm.go
index d14a61d..9125db0 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -853,17 +853,6 @@ func (a CreateClosureInstr) Execute(env *Zlisp) error {
 		//P("myInvok is copy of a.sfun '%s' with parent = %s", a.sfun.name, myInvok.parent.name)
 	}
 
-	ps8 := NewPrintStateWithIndent(8)
-	shown, err := myInvok.ShowClosing(env, ps8, fmt.Sprintf("closedOverScopes of '%s'", myInvok.name))
-	_ = shown
-	if err != nil {
-		return err
-	}
-	//VPrintf("+++ CreateClosure: assign to '%s' the stack:\n\n%s\n\n",		myInvok.SexpString(nil), shown)
-	top := cls.TopScope()
-	//VPrintf("222 CreateClosure: top of NewClosing Scope has addr %p and is\n",		top)
-	top.Show(env, ps8, fmt.Sprintf("top of NewClosing at %p", top))
-
 	env.datastack.PushExpr(myInvok)
 	return nil
 }
-- 
2.43.0


From d3b66cf720a1e56baf7eed097d8741088781b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 16/64] fix: a named argument is lazy when the formal of that
 name is

(f b: X #a: Y) delayed and evaluated arguments by their position in the call,
so a strict parameter could receive an unevaluated argument.
---
 zygo/environment.go |  6 +++++-
 zygo/expressions.go | 26 ++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 07084cf..5e52214 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -407,8 +407,12 @@ func (env *Zlisp) ResolveCallable(funcobj Sexp) (Sexp, string, error) {
 }
 
 func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error {
+	var lazy []bool
+	if function != nil && !function.user && function.HasLazyFormals() {
+		lazy = function.lazyCallArgs(args)
+	}
 	for i, expr := range args {
-		if function != nil && !function.user && function.HasLazyFormals() && function.IsLazyCallArg(i) {
+		if lazy != nil && lazy[i] {
 			env.datastack.PushExpr(NewSourceLazyArg(env, expr))
 			continue
 		}
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 6a20497..fc5ae32 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -756,6 +756,32 @@ func (sf *SexpFunction) IsLazyCallArg(i int) bool {
 	return sf.IsLazyFormal(i)
 }
 
+// lazyCallArgs tells which of the args of a call are for lazy formals. The label
+// in front of a named argument decides which formal it is for.
+func (sf *SexpFunction) lazyCallArgs(args []Sexp) []bool {
+	lazy := make([]bool, len(args))
+	named := false
+	for i := 0; sf.inputTypes != nil && i < len(args)-1; i++ {
+		label, isNamed := namedArgSymbol(args[i])
+		if !isNamed {
+			continue
+		}
+		named = true
+		i++
+		for j, formal := range sf.argSyms {
+			if formal.name == label.name {
+				lazy[i] = sf.IsLazyFormal(j)
+			}
+		}
+	}
+	if !named {
+		for i := range args {
+			lazy[i] = sf.IsLazyCallArg(i)
+		}
+	}
+	return lazy
+}
+
 func (sf *SexpFunction) SetClosing(clos *Closing) {
 	sf.closingOverScopes = clos
 }
-- 
2.43.0


From 00e9822b92c559722399ff01a64100b33eaa9e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 17/64] fix: an unfinished text given to read is an error, not
 a panic

---
 zygo/functions.go |  1 +
 zygo/parser.go    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index 51c4c99..612b836 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -663,6 +663,7 @@ func ReadFunction(env *Zlisp, name string, args []Sexp) (sx Sexp, err error) {
 	default:
 		return SexpNull, WrongType
 	}
+	sx = SexpNull
 	env.parser.ResetAddNewInput(bytes.NewBuffer([]byte(str)))
 	//exp, err := env.parser.ParseExpression(0)
 	// have to use the iter interface...once.
diff --git a/zygo/parser.go b/zygo/parser.go
index 91e8dfa..ee5b498 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -133,7 +133,7 @@ tokFilled:
 		parser.sendMe.Err = ErrMoreInputNeeded
 		ok := parser.yield(parser.sendMe)
 		if !ok {
-			return SexpEnd, nil
+			return SexpEnd, ParserHaltRequested
 		}
 		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
 
@@ -228,7 +228,7 @@ func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 				parser.sendMe.Err = ErrMoreInputNeeded
 				ok := parser.yield(parser.sendMe)
 				if !ok {
-					return SexpEnd, nil
+					return SexpEnd, ParserHaltRequested
 				}
 			}
 		}
@@ -587,6 +587,10 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 		for {
 			p.topTokens = p.topTokens[:0]
 			expr, err = p.ParseExpression(depth0)
+			if err == ParserHaltRequested {
+				// nobody is listening any more.
+				return
+			}
 			if err != nil || expr == SexpEnd {
 				p.sendMe.Err = err
 				yield(p.sendMe)
@@ -624,7 +628,7 @@ func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
 			parser.sendMe.Err = ErrMoreInputNeeded
 			ok := parser.yield(parser.sendMe)
 			if !ok {
-				return SexpEnd, nil
+				return SexpEnd, ParserHaltRequested
 			}
 			// have to still fill tok, so
 			// loop to the top to PeekNextToken
@@ -669,7 +673,7 @@ func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
 			parser.sendMe.Err = ErrMoreInputNeeded
 			ok := parser.yield(parser.sendMe)
 			if !ok {
-				return SexpEnd, nil
+				return SexpEnd, ParserHaltRequested
 			}
 			// have to still fill tok, so
 			// loop to the top to PeekNextToken
@@ -714,7 +718,7 @@ func (parser *Parser) ParseInfix(depth int) (Sexp, error) {
 				parser.sendMe.Err = ErrMoreInputNeeded
 				ok := parser.yield(parser.sendMe)
 				if !ok {
-					return SexpEnd, nil
+					return SexpEnd, ParserHaltRequested
 				}
 			}
 		}
-- 
2.43.0


From f4cbde40e8475170b32ef3a7108c1df58c2482a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 18/64] fix: types that scripts declare stay in their
 interpreter, and a failed declaration changes nothing

---
 zygo/builders.go    |  99 ++++++++++++++++++++---------------
 zygo/environment.go |   7 +++
 zygo/expressions.go |   6 +++
 zygo/gotypereg.go   | 122 +++++++++++++++++++++++++++++++++++---------
 zygo/hashutils.go   |  12 ++---
 zygo/jsonmsgp.go    |   8 +--
 6 files changed, 181 insertions(+), 73 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 478e95e..a836c1f 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -63,6 +63,7 @@ type RecordDefn struct {
 	Name      string
 	Fields    []*SexpField
 	FieldType map[string]*RegisteredType
+	rt        *RegisteredType
 }
 
 func NewRecordDefn() *RecordDefn {
@@ -79,15 +80,31 @@ func (r *RecordDefn) SetFields(flds []*SexpField) {
 	for _, f := range flds {
 		g := (*SexpHash)(f)
 		rt, err := g.HashGet(nil, f.KeyOrder[0])
-		panicOn(err)
+		panicOn(err) // see checkIsField
 		r.FieldType[g.KeyOrder[0].(*SexpSymbol).name] = rt.(*RegisteredType)
 	}
 }
 
+// checkIsField reports what keeps f from declaring the field of a struct.
+func (f *SexpField) checkIsField() error {
+	name, isSym := f.KeyOrder[0].(*SexpSymbol)
+	if !isSym {
+		return fmt.Errorf("field name must be a symbol, not '%s'", f.KeyOrder[0].SexpString(nil))
+	}
+	ty, err := (*SexpHash)(f).HashGet(nil, name)
+	if err != nil {
+		return err
+	}
+	_, isType := ty.(*RegisteredType)
+	if !isType {
+		return fmt.Errorf("field '%s' must have a type, not '%s'", name.name, ty.SexpString(nil))
+	}
+	return nil
+}
+
 func (p *RecordDefn) Type() *RegisteredType {
-	rt := GoStructRegistry.Registry[p.Name]
-	//Q("RecordDefn) Type() sees rt = %v", rt)
-	return rt
+	//Q("RecordDefn) Type() sees rt = %v", p.rt)
+	return p.rt
 }
 
 // pretty print a struct
@@ -280,23 +297,41 @@ func StructBuilder(env *Zlisp, name string,
 	env.datastack.PushExpr(SexpNull)
 	structName := symN.name
 
+	uds := NewRecordDefn()
+	uds.SetName(structName)
+	rt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		return uds, nil
+	})
+	rt.UserStructDefn = uds
+	rt.DisplayAs = structName
+	uds.rt = rt
+
+	// a declaration that fails leaves an earlier one as it was.
+	declared := false
+	top := env.linearstack.elements[env.linearstack.tos].(*Scope)
+	oldValue, hadValue := top.Map[symN.number]
+	oldType := env.scriptTypes.byName[structName]
+	defer func() {
+		if declared {
+			return
+		}
+		delete(top.Map, symN.number)
+		if hadValue {
+			top.Map[symN.number] = oldValue
+		}
+		env.undeclareType(structName, oldType)
+	}()
+
 	{
 		// begin enable recursion -- add ourselves to the env early, then
-		// update later, so that structs can refer to themselves.
-		udsR := NewRecordDefn()
-		udsR.SetName(structName)
-		rtR := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-			return udsR, nil
-		})
-		rtR.UserStructDefn = udsR
-		rtR.DisplayAs = structName
-		GoStructRegistry.RegisterUserdef(rtR, false, structName)
+		// fill in the fields later, so that structs can refer to themselves.
+		env.declareType(rt, structName)
 
 		// overwrite any existing definition, deliberately ignore any error,
 		// as there may not be a prior definition present at all.
 		env.linearstack.DeleteSymbolFromTopOfStackScope(symN)
 
-		err := env.LexicalBindSymbol(symN, rtR)
+		err := env.LexicalBindSymbol(symN, rt)
 		if err != nil {
 			return SexpNull, fmt.Errorf("struct builder could not bind symbol '%s': '%v'",
 				structName, err)
@@ -349,6 +384,11 @@ func StructBuilder(env *Zlisp, name string,
 					}
 					//Q("ko = '%#v'", ko)
 					first := ko[0]
+					err = asHash.checkIsField()
+					if err != nil {
+						return SexpNull, fmt.Errorf("bad struct declaration '%v': bad "+
+							"field array at entry %v; %v", structName, i, err)
+					}
 					//Q("first = '%#v'", first)
 					xar = append(xar, first)
 					xar = append(xar, ev)
@@ -359,30 +399,9 @@ func StructBuilder(env *Zlisp, name string,
 		}
 	} // end n == 2
 
-	uds := NewRecordDefn()
-	uds.SetName(structName)
 	uds.SetFields(flat)
+	declared = true
 	//Q("good: made typeDefnHash: '%s'", uds.SexpString(nil))
-	rt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-		return uds, nil
-	})
-	rt.UserStructDefn = uds
-	rt.DisplayAs = structName
-	GoStructRegistry.RegisterUserdef(rt, false, structName)
-	//Q("good: registered new userdefined struct '%s'", structName)
-
-	// replace our recursive-reference-enabling symbol with the real one.
-	err := env.linearstack.DeleteSymbolFromTopOfStackScope(symN)
-	if err != nil {
-		return SexpNull, fmt.Errorf("internal error: should have already had symbol '%s' "+
-			"bound, but DeleteSymbolFromTopOfStackScope returned error: '%v'",
-			symN.name, err)
-	}
-	err = env.LexicalBindSymbol(symN, rt)
-	if err != nil {
-		return SexpNull, fmt.Errorf("late: struct builder could not bind symbol '%s': '%v'",
-			structName, err)
-	}
 	//Q("good: bound symbol '%s' to RegisteredType '%s'", symN.SexpString(nil), rt.SexpString(nil))
 	return rt, nil
 }
@@ -675,8 +694,8 @@ func ArrayOfFunction(env *Zlisp, name string,
 		return reflect.New(derivedType), nil
 	})
 	arrayRt.DisplayAs = fmt.Sprintf("(%s %s)", name, rt.DisplayAs)
-	arrayName := "arrayOf" + rt.RegisteredName
-	GoStructRegistry.RegisterUserdef(arrayRt, false, arrayName)
+	arrayRt.RegisteredName = "arrayOf" + rt.RegisteredName
+	arrayRt.setUserdef(false)
 	return arrayRt, nil
 }
 
@@ -743,9 +762,9 @@ func VarBuilder(env *Zlisp, name string,
 			_ = rd
 			//Q("we have RecordDefn rd = %#v", *rd)
 		}
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), typ: rt}
 	default:
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), typ: rt}
 	}
 
 	//Q("var decl: valSexp is '%v'", valSexp.SexpString(nil))
diff --git a/zygo/environment.go b/zygo/environment.go
index 5e52214..c979d07 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -44,6 +44,10 @@ type Zlisp struct {
 	baseTypeCtor    *SexpFunction
 
 	infixOps map[string]*InfixOp
+
+	// types declared by scripts; shared with clones.
+	scriptTypes *scriptTypes
+
 	Pretty   bool
 	Echo     bool // should the repl print the last value
 
@@ -115,6 +119,7 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.before = []PreHook{}
 	env.after = []PostHook{}
 	env.infixOps = make(map[string]*InfixOp)
+	env.scriptTypes = newScriptTypes()
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
@@ -164,6 +169,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
+	dupenv.scriptTypes = env.scriptTypes
 	dupenv.linearstack.Push(env.linearstack.elements[0])
 
 	dupenv.mainfunc = env.MakeFunction("__main", 0, false,
@@ -195,6 +201,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
+	dupenv.scriptTypes = env.scriptTypes
 
 	dupenv.linearstack.Push(env.linearstack.elements[0])
 
diff --git a/zygo/expressions.go b/zygo/expressions.go
index fc5ae32..891557a 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -136,9 +136,15 @@ func (r *SexpRaw) Type() *RegisteredType {
 
 type SexpReflect struct {
 	Val reflect.Value
+
+	// the type it was declared with, if any.
+	typ *RegisteredType
 }
 
 func (r *SexpReflect) Type() *RegisteredType {
+	if r.typ != nil {
+		return r.typ
+	}
 	k := reflectName(reflect.Value(r.Val))
 	//Q("SexpReflect.Type() looking up type named '%s'", k)
 	ty, ok := GoStructRegistry.Registry[k]
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e066119..d6c384f 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -2,7 +2,9 @@ package zygo
 
 import (
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"time"
 )
 
@@ -128,16 +130,80 @@ func (r *GoStructRegistryType) RegisterUserdef(
 			e0 = &rt
 		}
 		r.register(name, e0, true)
-		e0.IsUser = true
-		e0.hasShadowStruct = hasShadowStruct
+		e0.setUserdef(hasShadowStruct)
+	}
+}
+
+// setUserdef marks e, which has its RegisteredName, as a user defined type.
+func (e *RegisteredType) setUserdef(hasShadowStruct bool) {
+	e.IsUser = true
+	e.hasShadowStruct = hasShadowStruct
+
+	e.Constructor = MakeUserFunction("__struct_"+e.RegisteredName, StructConstructorFunction)
+	if e.DisplayAs == "" {
+		e.DisplayAs = e.RegisteredName
+	}
+}
+
+// scriptTypes are the types that the scripts of one interpreter, and of
+// its clones, have declared. They take precedence over the types of the
+// same name in the GoStructRegistry. Other interpreters do not see them.
+type scriptTypes struct {
+	byName map[string]*RegisteredType
+	names  []string
+}
+
+func newScriptTypes() *scriptTypes {
+	return &scriptTypes{byName: make(map[string]*RegisteredType)}
+}
+
+// declareType makes e known under name in this interpreter.
+func (env *Zlisp) declareType(e *RegisteredType, name string) {
+	if !e.initDone {
+		e.Init()
+	}
+	e.RegisteredName = name
+	e.Aliases[name] = true
+	e.setUserdef(false)
+
+	t := env.scriptTypes
+	if _, found := t.byName[name]; !found {
+		t.names = append(t.names, name)
+	}
+	t.byName[name] = e
+}
 
-		e0.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
-		if e0.DisplayAs == "" {
-			e0.DisplayAs = name
+// undeclareType puts back the earlier declaration of name, or none if old is nil.
+func (env *Zlisp) undeclareType(name string, old *RegisteredType) {
+	t := env.scriptTypes
+	if old != nil {
+		t.byName[name] = old
+		return
+	}
+	_, found := t.byName[name]
+	if !found {
+		return
+	}
+	delete(t.byName, name)
+	for i := range t.names {
+		if t.names[i] == name {
+			t.names = append(t.names[:i:i], t.names[i+1:]...)
+			break
 		}
 	}
 }
 
+// lookupType finds the type that name stands for in this interpreter, or nil.
+func (env *Zlisp) lookupType(name string) *RegisteredType {
+	if env != nil {
+		rt, found := env.scriptTypes.byName[name]
+		if found {
+			return rt
+		}
+	}
+	return GoStructRegistry.Lookup(name)
+}
+
 func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
 	return r.Registry[name]
 }
@@ -195,6 +261,10 @@ type RegisteredType struct {
 	DisplayAs      string
 	UserStructDefn *RecordDefn
 	IsPointer      bool
+
+	// the types derived from this one, once made.
+	sliceType   *RegisteredType
+	pointerType *RegisteredType
 }
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
@@ -388,21 +458,25 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if narg != 0 {
 		return SexpNull, WrongNargs
 	}
-	r := ListRegisteredTypes
-	s := make([]Sexp, len(r))
-	for i := range r {
-		s[i] = &SexpStr{S: r[i]}
+	s := make([]Sexp, 0, len(ListRegisteredTypes)+len(env.scriptTypes.names))
+	for _, name := range ListRegisteredTypes {
+		s = append(s, &SexpStr{S: name})
+	}
+	for _, name := range env.scriptTypes.names {
+		if GoStructRegistry.Lookup(name) == nil {
+			s = append(s, &SexpStr{S: name})
+		}
 	}
 	return env.NewSexpArray(s), nil
 }
 
 func (env *Zlisp) ImportBaseTypes() {
-	for _, e := range GoStructRegistry.Builtin {
-		env.AddGlobal(e.RegisteredName, e)
-	}
-
-	for _, e := range GoStructRegistry.Userdef {
-		env.AddGlobal(e.RegisteredName, e)
+	for _, reg := range []map[string]*RegisteredType{GoStructRegistry.Builtin, GoStructRegistry.Userdef} {
+		// always in the same order, so that symbols are always numbered alike.
+		for _, name := range slices.Sorted(maps.Keys(reg)) {
+			e := reg[name]
+			env.AddGlobal(e.RegisteredName, e)
+		}
 	}
 }
 
@@ -426,18 +500,19 @@ func compareRegisteredTypes(a *RegisteredType, bs Sexp) (int, error) {
 func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *RegisteredType) *RegisteredType {
 	Q("pointedToType = %#v", pointedToType)
 	ptrName := "*" + pointedToType.RegisteredName
-	ptrRt := gsr.Lookup(ptrName)
+	ptrRt := pointedToType.pointerType
 	if ptrRt != nil {
-		Q("type named '%v' already registered, reusing the pointer type", ptrName)
+		Q("type named '%v' already made, reusing the pointer type", ptrName)
 	} else {
-		Q("registering new pointer type '%v'", ptrName)
+		Q("making new pointer type '%v'", ptrName)
 		derivedType := reflect.PtrTo(pointedToType.TypeCache)
 		ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
 		ptrRt.RegisteredName = ptrName
-		gsr.RegisterUserdef(ptrRt, false, ptrName)
+		ptrRt.setUserdef(false)
+		pointedToType.pointerType = ptrRt
 	}
 	return ptrRt
 }
@@ -445,18 +520,19 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *RegisteredType {
 	//sliceName := "sliceOf" + rt.RegisteredName
 	sliceName := "[]" + rt.RegisteredName
-	sliceRt := gsr.Lookup(sliceName)
+	sliceRt := rt.sliceType
 	if sliceRt != nil {
-		Q("type named '%v' already registered, re-using the type", sliceName)
+		Q("type named '%v' already made, re-using the type", sliceName)
 	} else {
-		Q("registering new slice type '%v'", sliceName)
+		Q("making new slice type '%v'", sliceName)
 		derivedType := reflect.SliceOf(rt.TypeCache)
 		sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
 		sliceRt.RegisteredName = sliceName
-		gsr.RegisterUserdef(sliceRt, false, sliceName)
+		sliceRt.setUserdef(false)
+		rt.sliceType = sliceRt
 	}
 	return sliceRt
 }
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 5370394..d8c82e0 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -106,7 +106,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	var iface interface{}
 	jsonMap := make(map[string]*HashFieldDet)
 
-	factory := GoStructRegistry.Lookup(typename)
+	factory := env.lookupType(typename)
 	if factory == nil {
 		factory = &RegisteredType{Factory: MakeGoStructFunc(func(env *Zlisp, h *SexpHash) (interface{}, error) { return MakeHash(nil, typename, env) })}
 		factory.Aliases = make(map[string]bool)
@@ -155,8 +155,8 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	}
 
 	//Q("doing factory, foundRecordType := GoStructRegistry.Registry[typename]")
-	factoryShad, foundRecordType := GoStructRegistry.Registry[typename]
-	if foundRecordType {
+	factoryShad := env.lookupType(typename)
+	if factoryShad != nil {
 		//Q("factoryShad = '%#v' for typename='%s'\n", factoryShad, typename)
 		if factoryShad.hasShadowStruct {
 			//Q("\n in MakeHash: found struct associated with '%s'\n", typename)
@@ -179,7 +179,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		factory.ReflectName = typename
 		factory.DisplayAs = typename
 
-		GoStructRegistry.RegisterUserdef(factory, false, typename)
+		env.declareType(factory, typename)
 	}
 
 	return &hash, nil
@@ -282,7 +282,7 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		//Q("SexpHash.TypeCheckField() sees nil has.GoStructFactory.UserStructDefn, bailing out.")
 
 		// check in the registry for this type!
-		rt := GoStructRegistry.Lookup(h.TypeName)
+		rt := h.Env.lookupType(h.TypeName)
 
 		// was it found? If so, use it!
 		if rt != nil && rt.UserStructDefn != nil {
@@ -961,7 +961,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
-	return GoStructRegistry.Registry[r.TypeName]
+	return r.Env.lookupType(r.TypeName)
 }
 
 func compareHash(a *SexpHash, bs Sexp) (int, error) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index f2f505d..ef47985 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -548,8 +548,8 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		} else {
 			//vv("ToGo: tn '%s' does not have GoShadowStruct set, making a new one", tn)
 
-			factory, hasMaker := GoStructRegistry.Registry[tn]
-			if !hasMaker {
+			factory := env.lookupType(tn)
+			if factory == nil {
 				return SexpNull, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 			}
 			newStruct, err = factory.Factory(env, asHash)
@@ -907,8 +907,8 @@ func SexpToGoStructs(
 		}
 
 		// use targVa, but check against the type in the registry for sanity/type checking.
-		factory, hasMaker := GoStructRegistry.Registry[tn]
-		if !hasMaker {
+		factory := env.lookupType(tn)
+		if factory == nil {
 			panic(fmt.Errorf("type '%s' not registered in GoStructRegistry", tn))
 			//return nil, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 		}
-- 
2.43.0


From b9ec8d0cce5973100673c6d8b17da1c5da7250ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 19/64] fix: evaluating the same code again does not fill the
 symbol table

---
 zygo/environment.go | 19 +++++++++++++++++++
 zygo/func.go        | 11 ++++++-----
 zygo/generator.go   | 10 +++++-----
 zygo/pratt.go       |  8 ++++----
 zygo/scopes.go      |  5 ++++-
 5 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index c979d07..77b7a62 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -37,6 +37,9 @@ type Zlisp struct {
 	before      []PreHook
 	after       []PostHook
 
+	// how many symbols freshSymbol has made
+	freshsymbols int
+
 	debugExec           bool
 	debugSymbolNotFound bool
 
@@ -166,6 +169,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.freshsymbols = env.freshsymbols
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -198,6 +202,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.freshsymbols = env.freshsymbols
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -282,6 +287,20 @@ func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
 	}
 }
 
+// freshSymbol returns a symbol for the use of generated code only: its
+// number is negative, so it differs from every symbol in the symbol table.
+// Unlike GenSymbol it adds nothing to the table, which therefore does
+// not grow when the same code is compiled again and again.
+func (env *Zlisp) freshSymbol(prefix string) *SexpSymbol {
+	for {
+		env.freshsymbols++
+		symname := prefix + strconv.Itoa(env.freshsymbols)
+		if _, exists := env.symtable[symname]; !exists {
+			return &SexpSymbol{name: symname, number: -env.freshsymbols}
+		}
+	}
+}
+
 func (env *Zlisp) CurrentFunctionSize() int {
 	if env.curfunc.user {
 		return 0
diff --git a/zygo/func.go b/zygo/func.go
index 8e3fbb4..2c07a7d 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -25,7 +25,6 @@ func FuncBuilder(env *Zlisp, name string,
 	returnsLoc := 2
 	bodyLoc := 3
 	isAnon := false
-	_ = isAnon
 
 	var symN *SexpSymbol
 	switch b := args[0].(type) {
@@ -51,7 +50,7 @@ func FuncBuilder(env *Zlisp, name string,
 			bodyLoc++
 		} else {
 			// anonymous function
-			symN = env.GenSymbol("__anon")
+			symN = env.freshSymbol("__anon")
 			isAnon = true
 			inputsLoc--
 			returnsLoc--
@@ -207,9 +206,11 @@ func FuncBuilder(env *Zlisp, name string,
 	invok, err := env.datastack.PopExpr()
 	panicOn(err) // we just pushed in the clos.Execute(), so this should always be err == nil
 	env.pc = notePc
-	err = env.LexicalBindSymbol(symN, invok)
-	if err != nil {
-		return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
+	if !isAnon {
+		err = env.LexicalBindSymbol(symN, invok)
+		if err != nil {
+			return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
+		}
 	}
 
 	if len(body) > 0 {
diff --git a/zygo/generator.go b/zygo/generator.go
index 50e0548..230a227 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -102,7 +102,7 @@ func buildSexpFun(
 	gen.Tail = true
 
 	if len(name) == 0 {
-		gen.funcname = env.GenSymbol("__anon").name
+		gen.funcname = env.freshSymbol("__anon").name
 	} else {
 		gen.funcname = name
 	}
@@ -938,14 +938,14 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 	var loop *Loop
 	if foundSym {
 		loop = &Loop{
-			stmtname: gen.env.GenSymbol("__loop_" + labelsym.name + "_"),
+			stmtname: gen.env.freshSymbol("__loop_" + labelsym.name + "_"),
 			//label:    &labelsym,
 			label:      labelsym,
 			scopeDepth: gen.scopes,
 		}
 	} else {
 		loop = &Loop{
-			stmtname:   gen.env.GenSymbol("__loop"),
+			stmtname:   gen.env.freshSymbol("__loop"),
 			scopeDepth: gen.scopes,
 		}
 	}
@@ -1517,9 +1517,9 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 		return fmt.Errorf("package name must be symbol or string")
 	}
 
-	// use GenSymbol so we are sure to have a unique point
+	// use a fresh symbol so we are sure to have a unique point
 	// to aim at when cleaning up.
-	symPkgName := gen.env.GenSymbol(pkgName)
+	symPkgName := gen.env.freshSymbol(pkgName)
 
 	// the packaging code comes after the last form: none is a tail call.
 	oldtail := gen.Tail
diff --git a/zygo/pratt.go b/zygo/pratt.go
index e699833..e11764b 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -438,7 +438,7 @@ func lowerRangeBinding(env *Zlisp, targets []*SexpSymbol, define bool, sourceSym
 		return prattCall(env, "mdef", targets[0], targets[1], pair)
 	}
 
-	pairSym := env.GenSymbol("__range_pair")
+	pairSym := env.freshSymbol("__range_pair")
 	pairBindings := &SexpArray{Val: []Sexp{pairSym, pair}, Env: env}
 	beginArgs := []Sexp{
 		env.MakeSymbol("begin"),
@@ -478,9 +478,9 @@ func lowerRangeFor(env *Zlisp, label *SexpSymbol, header []Sexp, body []Sexp) (S
 		return SexpNull, true, err
 	}
 
-	sourceSym := env.GenSymbol("__range_src")
-	lenSym := env.GenSymbol("__range_len")
-	indexSym := env.GenSymbol("__range_i")
+	sourceSym := env.freshSymbol("__range_src")
+	lenSym := env.freshSymbol("__range_len")
+	indexSym := env.freshSymbol("__range_i")
 	letBindings := &SexpArray{
 		Val: []Sexp{
 			sourceSym, source,
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 4cb2561..1051951 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -333,7 +333,10 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	}
 	sortme := []*SymtabE{}
 	for symbolNumber, val := range scop.Map {
-		symbolName := env.revsymtable[symbolNumber]
+		symbolName, ok := env.revsymtable[symbolNumber]
+		if !ok {
+			symbolName = fmt.Sprintf("__generated%d", -symbolNumber)
+		}
 		sortme = append(sortme, &SymtabE{Key: symbolName, Val: val.SexpString(ps)})
 	}
 	sort.Sort(SymtabSorter(sortme))
-- 
2.43.0


From 2ec64cdfbee398c2503d23752ab9c34ee75a54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 20/64] fix: templates substitute inside dotted pairs, and a
 splice outside a list is an error

---
 zygo/generator.go | 36 +++++++++++++++++++++++++++++++++++-
 zygo/vm.go        |  9 +++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 230a227..60fc991 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -658,6 +658,9 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 	case "macexpand":
 		return gen.GenerateMacexpand(args)
 	case "syntaxQuote":
+		if len(args) == 1 && isUnquoteSplicing(args[0]) {
+			return fmt.Errorf("unquote-splicing (~@) must be inside a list or array")
+		}
 		return gen.GenerateSyntaxQuote(args)
 	case "include":
 		return gen.GenerateInclude(args)
@@ -1192,7 +1195,7 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
-			break
+			return gen.generateSyntaxQuoteDotted(aaa)
 		}
 		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
@@ -1202,6 +1205,37 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	return nil
 }
 
+// isUnquoteSplicing recognises ~@expr, that is (unquote-splicing expr).
+func isUnquoteSplicing(arg Sexp) bool {
+	body, err := ListToArray(arg)
+	if err != nil || len(body) != 2 {
+		return false
+	}
+	sym, isSym := body[0].(*SexpSymbol)
+	return isSym && sym.name == "unquote-splicing"
+}
+
+// generateSyntaxQuoteDotted handles pairs that do not end in nil: (a b \ c)
+func (gen *Generator) generateSyntaxQuoteDotted(pair *SexpPair) error {
+	gen.AddInstruction(PushInstr{SexpMarker})
+	var rest Sexp = pair
+	for {
+		p, isPair := rest.(*SexpPair)
+		if !isPair {
+			break
+		}
+		if err := gen.GenerateSyntaxQuote([]Sexp{p.Head}); err != nil {
+			return err
+		}
+		rest = p.Tail
+	}
+	if err := gen.GenerateSyntaxQuote([]Sexp{rest}); err != nil {
+		return err
+	}
+	gen.AddInstruction(SquashInstr(1))
+	return nil
+}
+
 func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	//Q("GenerateSyntaxQuoteList() called with arg='%#v'", arg)
 
diff --git a/zygo/vm.go b/zygo/vm.go
index 9125db0..e71be17 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -502,6 +502,8 @@ func (e ExplodeInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
+// SquashInstr collects the operands down to the marker into a list. With a
+// non-zero value, the last operand is the tail of that list.
 type SquashInstr int
 
 func (s SquashInstr) InstrString() string {
@@ -510,6 +512,13 @@ func (s SquashInstr) InstrString() string {
 
 func (s SquashInstr) Execute(env *Zlisp) error {
 	var list Sexp = SexpNull
+	if s != 0 {
+		tail, err := env.datastack.PopExpr()
+		if err != nil {
+			return err
+		}
+		list = tail
+	}
 
 	for {
 		expr, err := env.datastack.PopExpr()
-- 
2.43.0


From f4bad1100ecb2d5238e6737bac9b241d1551d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 21/64] fix: a negative number can follow a quote, caret or
 tilde

---
 zygo/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 6e03ef0..af767fa 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -234,7 +234,7 @@ func (lexer *Lexer) twoback() rune {
 func canStartSignedNumberAfter(r rune) bool {
 	switch r {
 	case 0, ' ', '\t', '\n', '\r',
-		'(', '[', '{', ',', ';', ':',
+		'(', '[', '{', ',', ';', ':', '%', '^', '~',
 		'+', '-', '*', '/', '<', '>', '=', '!', '&', '|':
 		return true
 	default:
-- 
2.43.0


From 72ecf05ad04967026ba1b20ec1b23b3a77a7898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 22/64] fix: an array of hashes, and a pointer to a hash, have
 a type

---
 zygo/builders.go  |  2 +-
 zygo/gotypereg.go | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index a836c1f..30d03dc 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -689,7 +689,7 @@ func ArrayOfFunction(env *Zlisp, name string,
 
 	//Q("arrayOf arg = '%s' with type %T", args[0].SexpString(nil), args[0])
 
-	derivedType := reflect.ArrayOf(sz, rt.TypeCache)
+	derivedType := reflect.ArrayOf(sz, rt.reflectType())
 	arrayRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return reflect.New(derivedType), nil
 	})
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index d6c384f..6928e8f 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -105,6 +105,15 @@ func (e *RegisteredType) Init() {
 	e.initDone = true
 }
 
+// reflectType returns the Go type that e stands for, or interface{}
+// when e has none (as the generic hash type does).
+func (e *RegisteredType) reflectType() reflect.Type {
+	if e.TypeCache == nil {
+		return reflect.TypeOf((*interface{})(nil)).Elem()
+	}
+	return e.TypeCache
+}
+
 func reflectName(val reflect.Value) string {
 	pointerName := fmt.Sprintf("%T", val.Interface())
 	reflectName := pointerName[1:]
@@ -505,7 +514,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 		Q("type named '%v' already made, reusing the pointer type", ptrName)
 	} else {
 		Q("making new pointer type '%v'", ptrName)
-		derivedType := reflect.PtrTo(pointedToType.TypeCache)
+		derivedType := reflect.PtrTo(pointedToType.reflectType())
 		ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
@@ -525,7 +534,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		Q("type named '%v' already made, re-using the type", sliceName)
 	} else {
 		Q("making new slice type '%v'", sliceName)
-		derivedType := reflect.SliceOf(rt.TypeCache)
+		derivedType := reflect.SliceOf(rt.reflectType())
 		sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
-- 
2.43.0


From 9224a1cf47e2f852bf945e6c73f25cbfdee819f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 23/64] fix: a block comment can end in several asterisks

---
 zygo/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index af767fa..02d01f9 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -547,6 +547,10 @@ top:
 		if err != nil {
 			return err
 		}
+		if r == '*' {
+			// this one may be what ends the comment
+			return nil
+		}
 		lexer.state = LexerCommentBlock
 		goto writeRuneToBuffer
 
-- 
2.43.0


From 2c81cd85418ac8c9052ee457bef002e3b099d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 24/64] fix: character literals denote any rune, and the
 escapes that printing uses can be read

---
 zygo/lexer.go  | 78 +++++++++++++++++++++++++++++++++++++++-----------
 zygo/parser.go |  4 ++-
 2 files changed, 65 insertions(+), 17 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 02d01f9..562de3f 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -136,6 +136,7 @@ type Lexer struct {
 	prevrune rune
 	tokens   []Token
 	buffer   *bytes.Buffer
+	escaped  string // the part of a \x, \u or \U escape seen so far
 
 	prevToken      Token
 	prevPrevToken  Token
@@ -263,6 +264,7 @@ func (lex *Lexer) Reset() {
 	lex.linenum = 1
 	lex.preBuiltinRune = 0
 	lex.buffer.Reset()
+	lex.escaped = ""
 	// nothing of an earlier text may influence how the next one is read.
 	lex.next = nil
 	lex.prevrune = 0
@@ -308,7 +310,7 @@ var (
 	// dot symbol non-examples: `.a.`, `..`
 	DotSymbolRegex = regexp.MustCompile(`^[.]$|^([.][^'#:;\\~@\[\]{}\^|"()%.0-9,][^'#:;\\~@\[\]{}\^|"()%.,*+\-]*)+$|^[^'#:;\\~@\[\]{}\^|"()%.0-9,][^'#:;\\~@\[\]{}\^|"()%.,*+\-]*([.][^'#:;\\~@\[\]{}\^|"()%.0-9,][^'#:;\\~@\[\]{}\^|"()%.,*+\-]*)+$`)
 	DotPartsRegex  = regexp.MustCompile(`[.]?[^'#:;\\~@\[\]{}\^|"()%.0-9,][^'#:;\\~@\[\]{}\^|"()%.,]*`)
-	CharRegex      = regexp.MustCompile("^'(\\\\?.|\n)'$")
+	CharRegex      = regexp.MustCompile("^'(.|\n)'$")
 
 	FloatRegex = regexp.MustCompile(`^-?([0-9]+[0-9_]*\.[0-9_]*)$|^-?(\.[0-9]+[0-9_]*)$|^-?([0-9]+[0-9_]*(\.[0-9_]*)?[eE]([-+]?[0-9]+[0-9_]*))$`)
 
@@ -346,6 +348,12 @@ func EscapeChar(char rune) (rune, error) {
 		return '\r', nil
 	case 'a':
 		return '\a', nil
+	case 'b':
+		return '\b', nil
+	case 'f':
+		return '\f', nil
+	case 'v':
+		return '\v', nil
 	case 't':
 		return '\t', nil
 	case '\\':
@@ -360,20 +368,56 @@ func EscapeChar(char rune) (rune, error) {
 	return ' ', errors.New("invalid escape sequence")
 }
 
+// DecodeChar returns the one rune between the single quotes. The lexer has
+// taken care of the escapes already.
 func DecodeChar(atom string) (string, error) {
 	runes := StringToRunes(atom)
-	n := len(runes)
-	runes = runes[:n-1]
-	runes = runes[1:]
-	if len(runes) == 2 {
-		char, err := EscapeChar(runes[1])
-		return string(char), err
+	if len(runes) == 3 {
+		return string(runes[1]), nil
 	}
+	return "", errors.New("not a char literal")
+}
 
-	if len(runes) == 1 {
-		return string(runes[0]), nil
+// lexEscaped takes the runes after a backslash, and writes what they stand for
+// once they are complete: one rune as in \n, or x, u or U with two, four or
+// eight hex digits, as the printing of strings and chars uses them.
+func (lexer *Lexer) lexEscaped(r rune) (complete bool, err error) {
+	lexer.escaped += string(r)
+	digits := 0
+	switch lexer.escaped[0] {
+	case 'x':
+		digits = 2
+	case 'u':
+		digits = 4
+	case 'U':
+		digits = 8
+	default:
+		lexer.escaped = ""
+		char, err := EscapeChar(r)
+		if err != nil {
+			return true, err
+		}
+		_, err = lexer.buffer.WriteRune(char)
+		return true, err
 	}
-	return "", errors.New("not a char literal")
+	if len(lexer.escaped) > 1 && !strings.ContainsRune("0123456789abcdefABCDEF", r) {
+		lexer.escaped = ""
+		return true, errors.New("invalid escape sequence")
+	}
+	if len(lexer.escaped) < 1+digits {
+		return false, nil
+	}
+	kind, hex := lexer.escaped[0], lexer.escaped[1:]
+	lexer.escaped = ""
+	val, err := strconv.ParseUint(hex, 16, 32)
+	if err != nil || (kind != 'x' && !(val <= utf8.MaxRune && utf8.ValidRune(rune(val)))) {
+		return true, errors.New("invalid escape sequence")
+	}
+	if kind == 'x' && lexer.state == LexerStrEscaped {
+		return true, lexer.buffer.WriteByte(byte(val))
+	}
+	_, err = lexer.buffer.WriteRune(rune(val))
+	return true, err
 }
 
 func (x *Lexer) DecodeAtom(atom string) (tk Token, err error) {
@@ -618,12 +662,13 @@ top:
 		return nil
 
 	case LexerStrEscaped:
-		char, err := EscapeChar(r)
+		complete, err := lexer.lexEscaped(r)
 		if err != nil {
 			return err
 		}
-		lexer.buffer.WriteRune(char)
-		lexer.state = LexerStrLit
+		if complete {
+			lexer.state = LexerStrLit
+		}
 		return nil
 
 	case LexerRuneLit:
@@ -641,12 +686,13 @@ top:
 		return nil
 
 	case LexerRuneEscaped:
-		char, err := EscapeChar(r)
+		complete, err := lexer.lexEscaped(r)
 		if err != nil {
 			return err
 		}
-		lexer.buffer.WriteRune(char)
-		lexer.state = LexerRuneLit
+		if complete {
+			lexer.state = LexerRuneLit
+		}
 		return nil
 
 	case LexerUnquote:
diff --git a/zygo/parser.go b/zygo/parser.go
index ee5b498..9eca1c3 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 var NaN float64
@@ -455,7 +456,8 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		}
 		return &SexpInt{Val: i}, nil
 	case TokenChar:
-		return &SexpChar{Val: rune(tok.str[0])}, nil
+		char, _ := utf8.DecodeRuneInString(tok.str)
+		return &SexpChar{Val: char}, nil
 	case TokenString:
 		return &SexpStr{S: tok.str}, nil
 	case TokenBeginBacktickString:
-- 
2.43.0


From f4ebb8927931277df873059f2e2e24b08c72f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 25/64] fix: numbers with a sign and a radix, a sign and no
 leading digit, or underscores and a fraction are read as numbers; no word
 before a colon is lost

---
 zygo/lexer.go  | 36 ++++++++++++++++++++++++++++--------
 zygo/parser.go |  2 +-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 562de3f..6eb1725 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"regexp"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 )
 
@@ -128,6 +129,7 @@ const (
 	LexerBuiltinOperator
 	LexerRuneLit
 	LexerRuneEscaped
+	LexerMinusPoint // -. could be the start of a negative number
 )
 
 type Lexer struct {
@@ -289,11 +291,11 @@ func (lex *Lexer) Token(typ TokenType, str string) Token {
 
 var (
 	BoolRegex    = regexp.MustCompile("^(true|false)$")
-	Uint64Regex  = regexp.MustCompile("^(0x|0o)?[0-9a-fA-F]+ULL$")
+	Uint64Regex  = regexp.MustCompile("^(0x[0-9a-fA-F]+|0o[0-7]+|[0-9]+)ULL$")
 	DecimalRegex = regexp.MustCompile("^-?[0-9][_0-9]*$") // allow underscores now, like go1.13
-	HexRegex     = regexp.MustCompile("^0x[0-9a-fA-F]+$")
-	OctRegex     = regexp.MustCompile("^0o[0-7]+$")
-	BinaryRegex  = regexp.MustCompile("^0b[01]+$")
+	HexRegex     = regexp.MustCompile("^-?0x[0-9a-fA-F]+$")
+	OctRegex     = regexp.MustCompile("^-?0o[0-7]+$")
+	BinaryRegex  = regexp.MustCompile("^-?0b[01]+$")
 	InfRegex     = regexp.MustCompile(`^(-|\+)?[Ii]nf$`)
 
 	// SymbolRegex = regexp.MustCompile("^[^'#]+$")
@@ -444,13 +446,13 @@ func (x *Lexer) DecodeAtom(atom string) (tk Token, err error) {
 		return x.Token(TokenDecimal, atom), nil
 	}
 	if HexRegex.MatchString(atom) {
-		return x.Token(TokenHex, atom[2:]), nil
+		return x.Token(TokenHex, strings.Replace(atom, "0x", "", 1)), nil
 	}
 	if OctRegex.MatchString(atom) {
-		return x.Token(TokenOct, atom[2:]), nil
+		return x.Token(TokenOct, strings.Replace(atom, "0o", "", 1)), nil
 	}
 	if BinaryRegex.MatchString(atom) {
-		return x.Token(TokenBinary, atom[2:]), nil
+		return x.Token(TokenBinary, strings.Replace(atom, "0b", "", 1)), nil
 	}
 	if FloatRegex.MatchString(atom) {
 		return x.Token(TokenFloat, atom), nil
@@ -487,7 +489,7 @@ func (x *Lexer) DecodeAtom(atom string) (tk Token, err error) {
 		return x.Token(TokenChar, char), nil
 	}
 
-	if endColon {
+	if endColon && atom == "" {
 		return x.Token(TokenColonOperator, ":"), nil
 	}
 
@@ -763,6 +765,10 @@ top:
 			} else {
 				//Q("atom was not matched by FloatRegex: '%s'", atom)
 			}
+			if r == '.' {
+				lexer.state = LexerMinusPoint
+				return nil
+			}
 		}
 
 		if BuiltinOpRegex.MatchString(atom) {
@@ -781,6 +787,20 @@ top:
 		lexer.AppendToken(lexer.Token(TokenSymbol, first))
 		goto top // still have to parse r in normal
 
+	case LexerMinusPoint:
+		lexer.state = LexerNormal
+		point := "."
+		if '0' <= r && r <= '9' {
+			point = "-."
+		} else {
+			lexer.AppendToken(lexer.Token(TokenSymbol, "-"))
+		}
+		_, err := lexer.buffer.WriteString(point)
+		if err != nil {
+			return err
+		}
+		goto top // r continues what starts with the point
+
 	case LexerNormal:
 		switch r {
 		case '+':
diff --git a/zygo/parser.go b/zygo/parser.go
index 9eca1c3..ede39aa 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -471,7 +471,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		if tok.str == "NaN" {
 			f = NaN
 		} else {
-			f, err = strconv.ParseFloat(tok.str, SexpFloatSize)
+			f, err = strconv.ParseFloat(strings.ReplaceAll(tok.str, "_", ""), SexpFloatSize)
 			if err != nil {
 				return SexpNull, err
 			}
-- 
2.43.0


From 89f216f4e35e8c0b9f4cda7d142835acf5cec0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 26/64] fix: braces around nothing but a comment are the empty
 hash

---
 zygo/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zygo/parser.go b/zygo/parser.go
index ede39aa..c6ca32b 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -329,7 +329,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 			}
 			return exp, err
 		case TokenRCurly:
-			_, _ = lexer.GetNextToken()       // dicard '}'
+			for ; extra > 0; extra-- {
+				_, _ = lexer.GetNextToken() // discard the comments and '}'
+			}
 			return MakeHash(nil, "hash", env) // return empty hash
 		case TokenString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-- 
2.43.0


From e0bcda0221c2605ee58e721f553660228c15e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 27/64] fix: the token nil reads as nil, so that printed nil
 reads back

---
 zygo/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zygo/parser.go b/zygo/parser.go
index c6ca32b..8d34f46 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -487,6 +487,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	case TokenEnd:
 		return SexpEnd, nil
 	case TokenSymbol:
+		if tok.str == "nil" {
+			return SexpNull, nil
+		}
 		if tok.str == "-" || tok.str == "+" {
 			// are we -Inf ?
 			tok2, err := parser.peekAfterSign(depth)
-- 
2.43.0


From 2424562949041083bb0fabc4c2a8067f407041e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 28/64] fix: a char, uint64 or nil after a complete infix
 statement starts the next statement

---
 zygo/pratt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index e11764b..6700a74 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -1061,6 +1061,8 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		return 0, nil
 	case *SexpStr:
 		return 0, nil
+	case *SexpChar, *SexpUint64, *SexpSentinel:
+		return 0, nil
 	case *SexpSymbol:
 		op, found := env.infixOps[x.name]
 		if x.name == "if" {
-- 
2.43.0


From 3d41957038738a5c3996e3cc5fb1ed20af609cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 29/64] fix: print large integral floats so that they read back
 as floats

---
 zygo/expressions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 891557a..df8d1ad 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -511,7 +511,12 @@ func (f *SexpFloat) SexpString(ps *PrintState) string {
 	if f.Scientific {
 		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize)
 	}
-	return strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	s := strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	if len(s) > 18 && strings.Trim(s, "-0123456789") == "" {
+		// would be read as an integer, one that may well be out of range
+		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize)
+	}
+	return s
 }
 
 func (c *SexpChar) SexpString(ps *PrintState) string {
-- 
2.43.0


From d06901cd1632fd8227c9c2a961d5effc325e203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 30/64] fix: escape string keys when a hash is printed

---
 zygo/hashutils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index d8c82e0..4a81ecf 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"hash/fnv"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -927,7 +928,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + `"` + s.S + `":`
+				str += indInner + strconv.Quote(s.S) + `:`
 			case *SexpSymbol:
 				if asJSON {
 					str += indInner + `"` + s.name + `":`
-- 
2.43.0


From f123b762024e0b6bbdeb064ab35304faca87b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 31/64] fix: in an infix block, a statement that starts with
 not is not merged into the one before it

---
 zygo/pratt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index 6700a74..98be10c 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -1074,6 +1074,10 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		}
 		if found {
 			//Q("LeftBindingPower: found op '%#v', returning op.Bp = %v", op, op.Bp)
+			if op.MunchLeft == nil {
+				// a prefix operator, such as not, does not bind to its left.
+				return 0, nil
+			}
 			return op.Bp, nil
 		}
 		if x.isDot {
-- 
2.43.0


From 57a06857624e2850a24115c563a2ce36456f946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 32/64] fix: in an infix block, a dotted path starts the next
 statement

---
 zygo/pratt.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index 98be10c..31ede90 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
 // Pratt parsing. see http://javascript.crockford.com/tdop/tdop.html
@@ -980,7 +981,7 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 				//Q("assigning curOp <- cnode '%s'", x.name)
 				curOp = op
 			} else {
-				if x.isDot {
+				if isFieldSelector(x) {
 					curOp = env.infixOps["."]
 					//Q("assigning curOp <- dotInfixOp; then curOp = %#v", curOp)
 				}
@@ -1052,6 +1053,12 @@ func (p *Pratt) IsEOF() bool {
 	return false
 }
 
+// isFieldSelector tells a .b, that selects a field of what is to its left,
+// from a path a.b that stands for itself.
+func isFieldSelector(x *SexpSymbol) bool {
+	return x.isDot && strings.HasPrefix(x.name, ".")
+}
+
 func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 	//Q("LeftBindingPower: sx is '%v'", sx.SexpString(nil))
 	switch x := sx.(type) {
@@ -1080,7 +1087,7 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 			}
 			return op.Bp, nil
 		}
-		if x.isDot {
+		if isFieldSelector(x) {
 			//Q("LeftBindingPower: dot symbol '%v', "+
 			//	"giving it binding-power 80", x.name)
 			return 80, nil
-- 
2.43.0


From 8d40d304f77c5c1bc164d8308f293f99cf4c34e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 33/64] fix: an empty infix statement is not the operand of
 what follows it

---
 zygo/pratt.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index 31ede90..24e2507 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -750,6 +750,13 @@ func InfixExpandArray(env *Zlisp, arr *SexpArray) ([]Sexp, error) {
 	xs := []Sexp{}
 
 	for {
+		for !pr.IsEOF() {
+			// an empty statement
+			if _, isSemi := pr.NextToken.(*SexpSemicolon); !isSemi {
+				break
+			}
+			pr.Advance()
+		}
 		x, ok, err := pr.LabeledFor(env)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From ab904d7743195a23f5afbe82123009fe71d672fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 34/64] fix: (json) and (msgpack) encode strings, keys, nil and
 unsigned integers properly

Strings, symbols, type names and keys were written with the language's own
quoting (string keys were quoted twice), nil as nil and 7ULL as 7ULL, so the
text was not JSON. Malformed input made JsonToGo panic. Unsigned integers
beyond int64 could not be decoded at all.
---
 zygo/jsonmsgp.go | 163 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 118 insertions(+), 45 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index ef47985..16f402b 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -2,11 +2,14 @@ package zygo
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
+	"math"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 	"unsafe"
@@ -66,7 +69,10 @@ func JsonFunction(name string) ZlispUserFunction {
 
 		switch name {
 		case "json":
-			str := SexpToJson(args[0])
+			str, err := sexpToJson(args[0])
+			if err != nil {
+				return SexpNull, err
+			}
 			return &SexpRaw{Val: []byte(str)}, nil
 		case "unjson":
 			raw, isRaw := args[0].(*SexpRaw)
@@ -75,7 +81,10 @@ func JsonFunction(name string) ZlispUserFunction {
 			}
 			return JsonToSexp([]byte(raw.Val), env)
 		case "msgpack":
-			by, _ := SexpToMsgpack(args[0])
+			by, _, err := sexpToMsgpack(args[0])
+			if err != nil {
+				return SexpNull, err
+			}
 			return &SexpRaw{Val: []byte(by)}, nil
 		case "unmsgpack":
 			raw, isRaw := args[0].(*SexpRaw)
@@ -100,62 +109,93 @@ func JsonToSexp(json []byte, env *Zlisp) (Sexp, error) {
 
 // sexp -> json
 func SexpToJson(exp Sexp) string {
+	str, err := sexpToJson(exp)
+	panicOn(err)
+	return str
+}
+
+func sexpToJson(exp Sexp) (string, error) {
 	switch e := exp.(type) {
 	case *SexpHash:
 		return e.jsonHashHelper()
 	case *SexpArray:
 		return e.jsonArrayHelper()
 	case *SexpSymbol:
-		return `"` + e.name + `"`
+		return jsonQuote(e.name), nil
+	case *SexpStr:
+		return jsonQuote(e.S), nil
+	case *SexpChar:
+		return jsonQuote(string(e.Val)), nil
+	case *SexpInt, *SexpBool:
+		return exp.SexpString(nil), nil
+	case *SexpUint64:
+		return strconv.FormatUint(e.Val, 10), nil
+	case *SexpFloat:
+		if math.IsNaN(e.Val) || math.IsInf(e.Val, 0) {
+			return "", fmt.Errorf("json error: cannot represent %v in JSON", e.Val)
+		}
+		return exp.SexpString(nil), nil
 	default:
-		return exp.SexpString(nil)
+		if exp == SexpNull {
+			return "null", nil
+		}
+		// no JSON equivalent: give the printed form as a string
+		return jsonQuote(exp.SexpString(nil)), nil
 	}
 }
 
-func (hash *SexpHash) jsonHashHelper() string {
-	str := fmt.Sprintf(`{"Atype":"%s", `, hash.TypeName)
+// jsonQuote returns s as a JSON string literal.
+func jsonQuote(s string) string {
+	var w bytes.Buffer
+	enc := json.NewEncoder(&w)
+	enc.SetEscapeHTML(false)
+	panicOn(enc.Encode(s))
+	return strings.TrimSuffix(w.String(), "\n")
+}
+
+func (hash *SexpHash) jsonHashHelper() (string, error) {
+	str := `{"Atype":` + jsonQuote(hash.TypeName)
 
-	ko := []string{}
 	n := len(hash.KeyOrder)
 	if n == 0 {
-		return str[:len(str)-2] + "}"
+		return str + "}", nil
 	}
 
+	ko := []string{}
 	for _, key := range hash.KeyOrder {
-		keyst := key.SexpString(nil)
+		var keyst string
+		switch k := key.(type) {
+		case *SexpSymbol:
+			keyst = jsonQuote(k.name)
+		case *SexpStr:
+			keyst = jsonQuote(k.S)
+		default:
+			keyst = jsonQuote(key.SexpString(nil))
+		}
 		ko = append(ko, keyst)
 		val, err := hash.HashGet(nil, key)
-		if err == nil {
-			str += `"` + keyst + `":`
-			str += string(SexpToJson(val)) + `, `
-		} else {
-			panic(err)
+		if err != nil {
+			return "", err
 		}
+		js, err := sexpToJson(val)
+		if err != nil {
+			return "", err
+		}
+		str += `, ` + keyst + `:` + js
 	}
-
-	str += `"zKeyOrder":[`
-	for _, key := range ko {
-		str += `"` + key + `", `
-	}
-	if n > 0 {
-		str = str[:len(str)-2]
-	}
-	str += "]}"
-
-	//VPrintf("\n\n final ToJson() str = '%s'\n", str)
-	return str
+	return str + `, "zKeyOrder":[` + strings.Join(ko, ", ") + "]}", nil
 }
 
-func (arr *SexpArray) jsonArrayHelper() string {
-	if len(arr.Val) == 0 {
-		return "[]"
-	}
-
-	str := "[" + SexpToJson(arr.Val[0])
-	for _, sexp := range arr.Val[1:] {
-		str += ", " + SexpToJson(sexp)
+func (arr *SexpArray) jsonArrayHelper() (string, error) {
+	elems := []string{}
+	for _, sexp := range arr.Val {
+		js, err := sexpToJson(sexp)
+		if err != nil {
+			return "", err
+		}
+		elems = append(elems, js)
 	}
-	return str + "]"
+	return "[" + strings.Join(elems, ", ") + "]", nil
 }
 
 type msgpackHelper struct {
@@ -176,12 +216,10 @@ func (m *msgpackHelper) init() {
 	//does this make a differenece? m.mh.AddExt(reflect.TypeOf(time.Time{}), 1, timeEncExt, timeDecExt)
 	m.mh.RawToString = true
 	m.mh.WriteExt = true
-	m.mh.SignedInteger = true
 	m.mh.Canonical = true // sort maps before writing them
 
 	// JSON
 	m.jh.MapType = reflect.TypeOf(map[string]interface{}(nil))
-	m.jh.SignedInteger = true
 	m.jh.Canonical = true // sort maps before writing them
 
 	m.initialized = true
@@ -196,15 +234,27 @@ func init() {
 // translate to sexp -> json -> go -> msgpack
 // returns both the msgpack []bytes and the go intermediary
 func SexpToMsgpack(exp Sexp) ([]byte, interface{}) {
-
-	json := []byte(SexpToJson(exp))
-	iface, err := JsonToGo(json)
-	panicOn(err)
-	by, err := GoToMsgpack(iface)
+	by, iface, err := sexpToMsgpack(exp)
 	panicOn(err)
 	return by, iface
 }
 
+func sexpToMsgpack(exp Sexp) ([]byte, interface{}, error) {
+	js, err := sexpToJson(exp)
+	if err != nil {
+		return nil, nil, err
+	}
+	iface, err := JsonToGo([]byte(js))
+	if err != nil {
+		return nil, nil, err
+	}
+	by, err := GoToMsgpack(iface)
+	if err != nil {
+		return nil, nil, err
+	}
+	return by, iface, nil
+}
+
 // json -> go
 func JsonToGo(json []byte) (interface{}, error) {
 	var iface interface{}
@@ -212,11 +262,11 @@ func JsonToGo(json []byte) (interface{}, error) {
 	decoder := codec.NewDecoderBytes(json, &msgpHelper.jh)
 	err := decoder.Decode(&iface)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	//VPrintf("\n decoded type : %T\n", iface)
 	//VPrintf("\n decoded value: %#v\n", iface)
-	return iface, nil
+	return preferSigned(iface), nil
 }
 
 func GoToMsgpack(iface interface{}) ([]byte, error) {
@@ -265,7 +315,27 @@ func MsgpackToGo(msgp []byte) (interface{}, error) {
 
 	//fmt.Printf("\n decoded type : %T\n", iface)
 	//fmt.Printf("\n decoded value: %#v\n", iface)
-	return iface, nil
+	return preferSigned(iface), nil
+}
+
+// preferSigned turns the unsigned integers inside a decoded value
+// into int64, except for those that only fit a uint64.
+func preferSigned(iface interface{}) interface{} {
+	switch x := iface.(type) {
+	case uint64:
+		if x <= math.MaxInt64 {
+			return int64(x)
+		}
+	case []interface{}:
+		for i := range x {
+			x[i] = preferSigned(x[i])
+		}
+	case map[string]interface{}:
+		for k := range x {
+			x[k] = preferSigned(x[k])
+		}
+	}
+	return iface
 }
 
 // convert iface, which will typically be map[string]interface{},
@@ -297,6 +367,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		//VPrintf("depth %d found int64 case: val = %#v\n", depth, val)
 		return &SexpInt{Val: val}
 
+	case uint64:
+		return &SexpUint64{Val: val}
+
 	case float64:
 		//VPrintf("depth %d found float64 case: val = %#v\n", depth, val)
 		return &SexpFloat{Val: val}
-- 
2.43.0


From c83ce66228de0b12198a927eb1745d639b750fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 35/64] fix: json2 writes well-formed JSON for strings, nil,
 unsigned integers and records

---
 zygo/expressions.go |  9 +++++++++
 zygo/hashutils.go   | 21 ++++++++++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index df8d1ad..ff04e7b 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -213,6 +213,9 @@ func (s *SexpComma) SexpString(ps *PrintState) string {
 
 func (sent *SexpSentinel) SexpString(ps *PrintState) string {
 	if sent == SexpNull {
+		if ps != nil && ps.PrintJSON {
+			return "null"
+		}
 		return "nil"
 	}
 	if sent == SexpEnd {
@@ -504,6 +507,9 @@ func (i *SexpInt) SexpString(ps *PrintState) string {
 }
 
 func (i *SexpUint64) SexpString(ps *PrintState) string {
+	if ps != nil && ps.PrintJSON {
+		return strconv.FormatUint(i.Val, 10)
+	}
 	return strconv.FormatUint(i.Val, 10) + "ULL"
 }
 
@@ -524,6 +530,9 @@ func (c *SexpChar) SexpString(ps *PrintState) string {
 }
 
 func (s *SexpStr) SexpString(ps *PrintState) string {
+	if ps != nil && ps.PrintJSON {
+		return jsonQuote(s.S)
+	}
 	if s.backtick {
 		return "`" + s.S + "`"
 	}
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 4a81ecf..7afce37 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -910,13 +910,12 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 
 	displayHashInCurly := false
 	comma := ""
-	asJSON := false
-	if hash.TypeName == "hash" {
+	asJSON := ps != nil && ps.PrintJSON
+	if hash.TypeName == "hash" || asJSON {
 		displayHashInCurly = true
 		str = "{" + prettyEnd
-		if ps != nil && ps.PrintJSON {
+		if asJSON {
 			comma = "," // be valid JSON
-			asJSON = true
 		}
 	}
 
@@ -928,15 +927,23 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + strconv.Quote(s.S) + `:`
+				if asJSON {
+					str += indInner + jsonQuote(s.S) + ":"
+				} else {
+					str += indInner + strconv.Quote(s.S) + `:`
+				}
 			case *SexpSymbol:
 				if asJSON {
-					str += indInner + `"` + s.name + `":`
+					str += indInner + jsonQuote(s.name) + ":"
 				} else {
 					str += indInner + s.name + ":"
 				}
 			default:
-				str += indInner + key.SexpString(innerPs) + ":"
+				if asJSON {
+					str += indInner + jsonQuote(key.SexpString(nil)) + ":"
+				} else {
+					str += indInner + key.SexpString(innerPs) + ":"
+				}
 			}
 			comma2 := comma
 			if onKey == lastKey {
-- 
2.43.0


From 38495a402f7275fb48d4cec8713273beeb936b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 36/64] fix: (json) writes large and small floats with an
 exponent

Large integral ones were read back as other integers, and very small ones,
with hundreds of zeros, as something else altogether.
---
 zygo/jsonmsgp.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 16f402b..9a6457a 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -134,7 +134,14 @@ func sexpToJson(exp Sexp) (string, error) {
 		if math.IsNaN(e.Val) || math.IsInf(e.Val, 0) {
 			return "", fmt.Errorf("json error: cannot represent %v in JSON", e.Val)
 		}
-		return exp.SexpString(nil), nil
+		format := byte('f')
+		if abs := math.Abs(e.Val); abs >= 1<<53 || abs < 1e-6 && abs != 0 {
+			// without the exponent, large numbers would be taken for integers
+			// (other ones, the digits being the shortest that denote the float),
+			// and the decoder gets lost in more than about 100 zeros.
+			format = 'e'
+		}
+		return strconv.FormatFloat(e.Val, format, -1, 64), nil
 	default:
 		if exp == SexpNull {
 			return "null", nil
-- 
2.43.0


From 61c8d20796334ae7d6e8d434b3a2197754516464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 37/64] fix: a path through nested packages into a hash goes on
 at the right name

---
 zygo/stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/stack.go b/zygo/stack.go
index e011b9a..314fc35 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -272,7 +272,7 @@ func (s *Stack) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (S
 				return SexpNull, err
 			}
 			//P("\n found hash in x at i=%d, looping to next i\n", i)
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 		case *Stack:
 			curStack = x
 		default:
-- 
2.43.0


From 3bc67ab168cf936c96a91bf3b30dec0539fcbe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 38/64] fix: a path through nested hashes into a package goes
 on at the right name

---
 zygo/hashutils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 7afce37..594a14c 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -870,7 +870,7 @@ func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp)
 			//P("\n found hash in h2 at i=%d, looping to next i\n", i)
 			askh = x
 		case *Stack:
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 			//		case *SexpReflect:
 			//			// at least allow reading, if we can.
 			//			P("hashutils DEBUG! SexpReflect value x is type: '%v', '%T'", x.Val.Type(), x.Val.Interface())
-- 
2.43.0


From b782daece8544cfc845d012b5ea0baaaf4d90149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 39/64] fix: a struct takes no fields under keys that are not
 symbols

---
 zygo/hashutils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 594a14c..69c3d72 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -269,6 +269,9 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		keySym = ks
 		wasSym = true
 	default:
+		if h.GoStructFactory != nil && h.GoStructFactory.UserStructDefn != nil {
+			return fmt.Errorf("%s has no field '%s' [err 2]", h.TypeName, key.SexpString(nil))
+		}
 		return KeyNotSymbol
 	}
 	p := h.GoStructFactory
-- 
2.43.0


From 5fc4b981af2a1f9095667d86a8e903f892ed073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 40/64] fix: an array whose elements have no type is refused by
 a struct field without a crash

---
 zygo/hashutils.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 69c3d72..305175c 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -319,17 +319,11 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		}
 		obsTyp := val.Type()
 		if obsTyp == nil {
-			// allow certain types to be nil, e.g. [] and nil itself
-			switch a := val.(type) {
-			case *SexpArray:
-				if len(a.Val) == 0 {
-					return nil // okay
-				}
-			case *SexpSentinel:
+			// allow nil itself
+			if _, isNil := val.(*SexpSentinel); isNil {
 				return nil // okay
-			default:
-				return fmt.Errorf("%v has nil Type", val.SexpString(nil))
 			}
+			return fmt.Errorf("%v has nil Type", val.SexpString(nil))
 		}
 
 		//Q("obsTyp is %T / val = %#v", obsTyp, obsTyp)
-- 
2.43.0


From 429b7024255fec3ce5697f63336914df8d4b69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 41/64] fix: decoding reports a record that its struct refuses,
 and keeps to the fields that are there

---
 zygo/hashutils.go | 22 +++++++++++++++-------
 zygo/jsonmsgp.go  |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 305175c..384e235 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -464,18 +464,26 @@ func HashIsEmpty(hash *SexpHash) bool {
 	return true
 }
 
+// SetHashKeyOrder puts the keys of hash in the order of keyOrd. Names that
+// hash does not hold are ignored; keys that keyOrd does not list come last.
 func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
-	// truncate down to zero, then build back up correctly.
-	hash.KeyOrder = hash.KeyOrder[:0]
-
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
 		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
 	}
-	for _, key := range keys.Val {
-		hash.KeyOrder = append(hash.KeyOrder, key)
+	held := make(map[string]Sexp)
+	for _, key := range hash.KeyOrder {
+		held[key.SexpString(nil)] = key
+	}
+	ordered := make([]Sexp, 0, len(hash.KeyOrder))
+	for _, key := range append(append([]Sexp(nil), keys.Val...), hash.KeyOrder...) {
+		name := key.SexpString(nil)
+		if own, isHeld := held[name]; isHeld {
+			ordered = append(ordered, own)
+			delete(held, name)
+		}
 	}
-
+	hash.KeyOrder = ordered
 	return nil
 }
 
@@ -807,11 +815,11 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 			}
 		}
 		hash, err := MakeHash(pairs, typeName, env)
+		panicOn(err)
 		if foundzKeyOrder {
 			err = SetHashKeyOrder(hash, keyOrd)
 			panicOn(err)
 		}
-		panicOn(err)
 		return hash, nil
 
 	case []byte:
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 9a6457a..7ac9d49 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -420,11 +420,11 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 			}
 		}
 		hash, err := MakeHash(pairs, typeName, env)
+		panicOn(err)
 		if foundzKeyOrder {
 			err = SetHashKeyOrder(hash, keyOrd)
 			panicOn(err)
 		}
-		panicOn(err)
 		return hash
 
 	case []byte:
-- 
2.43.0


From dc5d1419a07a29e9eec31972784efbd84818adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 42/64] fix: the type of an instance is the definition it was
 made with

---
 zygo/hashutils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 384e235..3aa03c4 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -974,6 +974,11 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
+	if r.GoStructFactory != nil && r.GoStructFactory.UserStructDefn != nil {
+		// the definition in force when it was made; there may be a newer
+		// one of the same name.
+		return r.GoStructFactory
+	}
 	return r.Env.lookupType(r.TypeName)
 }
 
-- 
2.43.0


From 0cc07b2fc60c4ddefcf5b409a7aab7c6645227f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 43/64] fix: the type of an array is that of its elements now

---
 zygo/expressions.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index ff04e7b..31c0683 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -270,21 +270,32 @@ type SexpArray struct {
 	Env *Zlisp
 }
 
+// Type is that of a slice of what the first element is; it is not kept, because
+// elements and length change. An array nested too deeply has none, for it may
+// hold itself.
 func (r *SexpArray) Type() *RegisteredType {
-	if r.Typ == nil {
-		if len(r.Val) > 0 {
-			// take type from first element
-			ty := r.Val[0].Type()
-			if ty != nil {
-				r.Typ = GoStructRegistry.GetOrCreateSliceType(ty)
-			}
-		} else {
-			// empty array
-			r.Typ = GoStructRegistry.Lookup("[]")
-			//P("lookup [] returned type %#v", r.Typ)
+	var ty *RegisteredType
+	depth := 0
+	for {
+		if len(r.Val) == 0 {
+			ty = GoStructRegistry.Lookup("[]")
+			break
+		}
+		depth++
+		inner, isArray := r.Val[0].(*SexpArray)
+		if !isArray {
+			ty = r.Val[0].Type()
+			break
 		}
+		if depth > 100 {
+			return nil
+		}
+		r = inner
 	}
-	return r.Typ
+	for ; ty != nil && depth > 0; depth-- {
+		ty = GoStructRegistry.GetOrCreateSliceType(ty)
+	}
+	return ty
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
-- 
2.43.0


From c117dfa6972a2ffb5a60498836deed19536d7649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 44/64] fix: a pointer to an array or a pointer only takes a
 value of its type

---
 zygo/functions.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zygo/functions.go b/zygo/functions.go
index 612b836..9cde2f4 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -1784,6 +1784,15 @@ func DerefFunction(name string) ZlispUserFunction {
 			rhstype := rhs.Type()
 			lhstype := ptr.ReflectTarget.Type()
 			//P("rhstype = %#v, lhstype = %#v", rhstype, lhstype)
+			switch arg := args[1].(type) {
+			case *SexpArray, *SexpPointer:
+				// these are all alike to Go
+				ty := arg.Type()
+				if ty == nil || (ty != ptr.PointedToType && ty.RegisteredName != "[]") {
+					return SexpNull, fmt.Errorf("type mismatch: value '%v' is not assignable to '%v'",
+						arg.SexpString(nil), ptr.PointedToType.ShortName())
+				}
+			}
 			if lhstype == rhstype {
 				// have to exclude *SexpHash and *SexpReflect from this
 				switch args[1].(type) {
-- 
2.43.0


From bc872d68dc895a33155860516de79e0c92606adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 45/64] fix: a struct with a field of its own type can be
 printed

---
 zygo/builders.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 30d03dc..f6a542b 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -170,6 +170,15 @@ func (r SexpField) Type() *RegisteredType {
 }
 
 // compute key and value widths to assist alignment
+// fieldValueString shows a type by its name: a struct may have
+// fields of its own type.
+func fieldValueString(val Sexp) string {
+	if rt, isType := val.(*RegisteredType); isType && rt != nil {
+		return rt.ShortName()
+	}
+	return val.SexpString(nil)
+}
+
 func (f *SexpField) FieldWidths() []int {
 	hash := (*SexpHash)(f)
 	wide := []int{}
@@ -186,7 +195,7 @@ func (f *SexpField) FieldWidths() []int {
 				str += key.SexpString(nil) + ":"
 			}
 			wide = append(wide, len(str))
-			wide = append(wide, len(val.SexpString(nil))+1)
+			wide = append(wide, len(fieldValueString(val))+1)
 		} else {
 			panic(err)
 		}
@@ -215,7 +224,7 @@ func (f *SexpField) AlignString(pad []int) string {
 				panic(fmt.Sprintf("xtra = %d, pad[i=%v]=%v, len(r)=%v (r=%v)", xtra, i, pad[i], len(r), r))
 			}
 			leftpad := strings.Repeat(" ", xtra)
-			vs := val.SexpString(nil)
+			vs := fieldValueString(val)
 			rightpad := strings.Repeat(" ", pad[(i*2)+1]-len(vs))
 			if i == 0 {
 				spc = " "
-- 
2.43.0


From 2402b2431646132c6bf0b21d7514561e607fa35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 46/64] fix: builtins get the same symbol numbers in every
 interpreter

---
 zygo/environment.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 77b7a62..19af037 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"runtime"
+	"sort"
 	"strconv"
 )
 
@@ -126,7 +127,14 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
-	for key, function := range funcs {
+	// in order, so that symbols get the same numbers every time
+	names := make([]string, 0, len(funcs))
+	for key := range funcs {
+		names = append(names, key)
+	}
+	sort.Strings(names)
+	for _, key := range names {
+		function := funcs[key]
 		sym := env.MakeSymbol(key)
 		env.builtins[sym.number] = MakeUserFunction(key, function)
 		env.AddFunction(key, function)
-- 
2.43.0


From 62d63c4df97dfce0c570c9570aafa561c97470e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 47/64] fix: a scope shows its members in the order of their
 names

---
 zygo/scopes.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zygo/scopes.go b/zygo/scopes.go
index 1051951..145c504 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -331,18 +331,22 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 		s += fmt.Sprintf("%s empty-scope: no symbols\n", rep4)
 		return
 	}
+	// sort first: what is shown of a value depends on what was
+	// shown before it.
 	sortme := []*SymtabE{}
+	vals := map[string]Sexp{}
 	for symbolNumber, val := range scop.Map {
 		symbolName, ok := env.revsymtable[symbolNumber]
 		if !ok {
 			symbolName = fmt.Sprintf("__generated%d", -symbolNumber)
 		}
-		sortme = append(sortme, &SymtabE{Key: symbolName, Val: val.SexpString(ps)})
+		sortme = append(sortme, &SymtabE{Key: symbolName})
+		vals[symbolName] = val
 	}
 	sort.Sort(SymtabSorter(sortme))
-	for i := range sortme {
-		s += fmt.Sprintf("%s %s -> %s\n", rep4,
-			sortme[i].Key, sortme[i].Val)
+	for _, e := range sortme {
+		e.Val = vals[e.Key].SexpString(ps)
+		s += fmt.Sprintf("%s %s -> %s\n", rep4, e.Key, e.Val)
 	}
 	return
 }
-- 
2.43.0


From 6e590672129c550b4153d53ff30a53a8c8a06aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 48/64] fix: the text of a caught panic is the same every time

---
 zygo/callgo.go      |  9 +++------
 zygo/environment.go | 23 ++++++++++++++++++-----
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index feea898..67ec625 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -3,7 +3,6 @@ package zygo
 import (
 	"fmt"
 	"reflect"
-	"runtime"
 )
 
 // call Go methods
@@ -18,15 +17,13 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	// protect against bad calls/bad reflection
 	var wasPanic bool
 	var recovered interface{}
-	tr := make([]byte, 16384)
-	trace := &tr
+	var trace string
 	sx, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				nbyte := runtime.Stack(*trace, false)
-				*trace = (*trace)[:nbyte]
+				trace = callTrace()
 			}
 		}()
 
@@ -195,7 +192,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if wasPanic {
 		return SexpNull, fmt.Errorf("\n recovered from panic "+
 			"during CallGo. panic on = '%v'\n"+
-			"stack trace:\n%s\n", recovered, string(*trace))
+			"stack trace:\n%s\n", recovered, trace)
 	}
 	return sx, err
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index 19af037..0fd1de1 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -612,6 +612,21 @@ func (env *Zlisp) ReturnFromFunction() error {
 	return err
 }
 
+// callTrace lists the calls that led here. Unlike runtime.Stack, it is
+// the same text every time: without addresses and goroutine numbers.
+func callTrace() string {
+	pcs := make([]uintptr, 100)
+	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
+	s := ""
+	for {
+		frame, more := frames.Next()
+		s += fmt.Sprintf("%s\n\t%s:%d\n", frame.Function, frame.File, frame.Line)
+		if !more {
+			return s
+		}
+	}
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
@@ -640,15 +655,13 @@ func (env *Zlisp) CallUserFunction(
 	// protect against bad calls/bad reflection in usercalls
 	var wasPanic bool
 	var recovered interface{}
-	var trace []byte
+	var trace string
 	res, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				trace = make([]byte, 16384)
-				nbyte := runtime.Stack(trace, false)
-				trace = trace[:nbyte]
+				trace = callTrace()
 			}
 		}()
 
@@ -662,7 +675,7 @@ func (env *Zlisp) CallUserFunction(
 	if wasPanic {
 		err = fmt.Errorf("CallUserFunction caught panic during call of "+
 			"'%s': '%v'\n stack trace:\n%v\n",
-			name, recovered, string(trace))
+			name, recovered, trace)
 	}
 	if err != nil {
 		env.restoreControlState(callState)
-- 
2.43.0


From 530afff753c540eb1f535e8f509e9adc72dbf7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 49/64] fix: converting to and from Go walks records and the
 type registry in a fixed order

---
 zygo/callgo.go    |  36 +++----
 zygo/gotypereg.go |  16 +++
 zygo/hashutils.go |  44 ++++----
 zygo/jsonmsgp.go  | 258 ++++++++++++++++++++++------------------------
 4 files changed, 180 insertions(+), 174 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index 67ec625..c30b1a5 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -157,30 +157,24 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			default:
 				// go through the type registry
 				found := false
-				for hashName, factory := range GoStructRegistry.Registry {
-					st, err := factory.Factory(env, nil)
+				factory, err := GoStructRegistry.registeredAs(env, out[i].Type())
+				if err != nil {
+					return SexpNull, err
+				}
+				if factory != nil {
+					retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
 					if err != nil {
-						return SexpNull, fmt.Errorf("MakeHash '%s' problem on Factory call: %s",
-							hashName, err)
+						return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+							factory.RegisteredName, err)
 					}
-					//Q("got st from Factory, checking if types match")
-					if reflect.ValueOf(st).Type() == out[i].Type() {
-						//Q("types match")
-						retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
-						if err != nil {
-							return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-								hashName, err)
-						}
-
-						//Q("filling from shadow")
-						err = retHash.FillHashFromShadow(env, f)
-						if err != nil {
-							return SexpNull, err
-						}
-						r = append(r, retHash)
-						found = true
-						break
+
+					//Q("filling from shadow")
+					err = retHash.FillHashFromShadow(env, f)
+					if err != nil {
+						return SexpNull, err
 					}
+					r = append(r, retHash)
+					found = true
 				}
 				if !found {
 					r = append(r, &SexpReflect{Val: out[i]})
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 6928e8f..e4ab018 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -105,6 +105,22 @@ func (e *RegisteredType) Init() {
 	e.initDone = true
 }
 
+// registeredAs returns the type registered for Go values of type t, nil
+// if there is none. Of several names, it is always the one registered first.
+func (r *GoStructRegistryType) registeredAs(env *Zlisp, t reflect.Type) (*RegisteredType, error) {
+	for _, name := range ListRegisteredTypes {
+		e := r.Registry[name]
+		st, err := e.Factory(env, nil)
+		if err != nil {
+			return nil, fmt.Errorf("MakeHash '%s' problem on Factory call: %s", name, err)
+		}
+		if st != nil && reflect.TypeOf(st) == t {
+			return e, nil
+		}
+	}
+	return nil, nil
+}
+
 // reflectType returns the Go type that e stands for, or interface{}
 // when e has none (as the generic hash type does).
 func (e *RegisteredType) reflectType() reflect.Type {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 3aa03c4..73f4a11 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -444,6 +444,18 @@ func (hash *SexpHash) forgetKeyOrder(key Sexp) {
 	hash.KeyOrder = kept
 }
 
+// orderedPairs returns the (key . value) pairs in the order of the keys.
+func (hash *SexpHash) orderedPairs() []*SexpPair {
+	pairs := make([]*SexpPair, 0, len(hash.KeyOrder))
+	for _, key := range hash.KeyOrder {
+		val, err := hash.HashGetDefault(hash.Env, key, SexpEnd)
+		if err == nil && val != SexpEnd {
+			pairs = append(pairs, Cons(key, val))
+		}
+	}
+	return pairs
+}
+
 func HashCountKeys(hash *SexpHash) int {
 	var num int
 	for _, arr := range hash.Map {
@@ -720,29 +732,23 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 	// check for one of our registered structs
 
 	// go through the type registry upfront
-	for hashName, factory := range GoStructRegistry.Registry {
-		//P("fillHashHelper is trying hashName='%s'", hashName)
-		st, err := factory.Factory(env, nil)
+	factory, err := GoStructRegistry.registeredAs(env, reflect.TypeOf(r))
+	if err != nil {
+		return SexpNull, err
+	}
+	if factory != nil {
+		retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
 		if err != nil {
-			return SexpNull, err
+			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+				factory.RegisteredName, err)
 		}
-		if reflect.ValueOf(st).Type() == reflect.ValueOf(r).Type() {
-			//Q("we have a registered struct match for st=%T and r=%T", st, r)
-			retHash, err := MakeHash([]Sexp{}, hashName, env)
-			if err != nil {
-				return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-					hashName, err)
-			}
 
-			err = retHash.FillHashFromShadow(env, r)
-			if err != nil {
-				return SexpNull, err
-			}
-			//Q("retHash = %#v\n", retHash)
-			return retHash, nil // or return sx?
-		} else {
-			//Q("fillHashHelper: no match for st=%T and r=%T", st, r)
+		err = retHash.FillHashFromShadow(env, r)
+		if err != nil {
+			return SexpNull, err
 		}
+		//Q("retHash = %#v\n", retHash)
+		return retHash, nil // or return sx?
 	}
 
 	//Q("fillHashHelper: trying basic non-struct types for r=%T", r)
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 7ac9d49..fce9c36 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -6,8 +6,10 @@ import (
 	"fmt"
 	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
+	"maps"
 	"math"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -558,16 +560,14 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		}
 
 		m := make(map[string]interface{})
-		for _, arr := range e.Map {
-			for _, pair := range arr {
-				key := SexpToGo(pair.Head, env, dedup)
-				val := SexpToGo(pair.Tail, env, dedup)
-				keyString, isStringKey := key.(string)
-				if !isStringKey {
-					panic(fmt.Errorf("key '%v' should have been a string, but was not.", key))
-				}
-				m[keyString] = val
+		for _, pair := range e.orderedPairs() {
+			key := SexpToGo(pair.Head, env, dedup)
+			val := SexpToGo(pair.Tail, env, dedup)
+			keyString, isStringKey := key.(string)
+			if !isStringKey {
+				panic(fmt.Errorf("key '%v' should have been a string, but was not.", key))
 			}
+			m[keyString] = val
 		}
 		m["Atype"] = e.TypeName
 		ko := make([]interface{}, 0)
@@ -853,42 +853,38 @@ func SexpToGoStructs(
 			switch target.(type) {
 			case *map[string]string:
 				m := make(map[string]string)
-				for _, arr := range src.Map {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-						}
-						vals, isstr := val.(string)
-						if !isstr {
-							panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
-						}
-						m[keys] = vals
+				for _, pair := range src.orderedPairs() {
+					key := SexpToGo(pair.Head, env, dedup)
+					val := SexpToGo(pair.Tail, env, dedup)
+					keys, isstr := key.(string)
+					if !isstr {
+						panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
 					}
+					vals, isstr := val.(string)
+					if !isstr {
+						panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
+					}
+					m[keys] = vals
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
 				return target, nil
 
 			case *map[string]float64:
 				m := make(map[string]float64)
-				for _, arr := range src.Map {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-						}
-						switch x := val.(type) {
-						case float64:
-							m[keys] = x
-						case int64:
-							m[keys] = float64(x)
-						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
-						}
+				for _, pair := range src.orderedPairs() {
+					key := SexpToGo(pair.Head, env, dedup)
+					val := SexpToGo(pair.Tail, env, dedup)
+					keys, isstr := key.(string)
+					if !isstr {
+						panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+					}
+					switch x := val.(type) {
+					case float64:
+						m[keys] = x
+					case int64:
+						m[keys] = float64(x)
+					default:
+						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
 					}
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
@@ -898,22 +894,20 @@ func SexpToGoStructs(
 				//P("target is a map[int64]float64")
 
 				m := make(map[int64]float64)
-				for _, arr := range src.Map {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keyint64, isint64Key := key.(int64)
-						if !isint64Key {
-							panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
-						}
-						switch x := val.(type) {
-						case float64:
-							m[keyint64] = x
-						case int64:
-							m[keyint64] = float64(x)
-						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
-						}
+				for _, pair := range src.orderedPairs() {
+					key := SexpToGo(pair.Head, env, dedup)
+					val := SexpToGo(pair.Tail, env, dedup)
+					keyint64, isint64Key := key.(int64)
+					if !isint64Key {
+						panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
+					}
+					switch x := val.(type) {
+					case float64:
+						m[keyint64] = x
+					case int64:
+						m[keyint64] = float64(x)
+					default:
+						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
 					}
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
@@ -930,26 +924,24 @@ func SexpToGoStructs(
 					pmap := reflect.MakeMap(targElemTyp)
 					//P(" pmap starts out as %v/type = %T", pmap, pmap.Interface())
 					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-					for _, arr := range src.Map {
-						for _, pair := range arr {
-							key := SexpToGo(pair.Head, env, dedup)
-							//val := SexpToGo(pair.Tail, env, dedup)
-							keys, isstr := key.(string)
-							if !isstr {
-								panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-							}
-							//vv("keys = '%v'", keys)
-
-							goElem := reflect.New(mapElemTyp) // returns pointer to new value
-							//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
-							if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
-								return nil, err
-							}
-							//P(" goElem = %#v after filling i=%d", goElem, i)
-							//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-							pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
-							//vv("pmap after set is now %#v", pmap)
+					for _, pair := range src.orderedPairs() {
+						key := SexpToGo(pair.Head, env, dedup)
+						//val := SexpToGo(pair.Tail, env, dedup)
+						keys, isstr := key.(string)
+						if !isstr {
+							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+						}
+						//vv("keys = '%v'", keys)
+
+						goElem := reflect.New(mapElemTyp) // returns pointer to new value
+						//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
+						if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
+							return nil, err
 						}
+						//P(" goElem = %#v after filling i=%d", goElem, i)
+						//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
+						pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
+						//vv("pmap after set is now %#v", pmap)
 					}
 					targVa.Elem().Set(pmap)
 					//vv("target returning = '%#v'", target)
@@ -1049,70 +1041,68 @@ func SexpToGoStructs(
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
 		//maploop:
-		for _, arr := range src.Map {
-			for _, pair := range arr {
-				recordKey = ""
-				switch k := pair.Head.(type) {
-				case *SexpStr:
-					recordKey = k.S
-				case *SexpSymbol:
-					recordKey = k.name
-				default:
-					fmt.Printf(" skipping field '%#v' which we don't know how to lookup.", pair.Head)
-					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%#v'", pair.Head))
-					continue
-				}
-				// We've got to match pair.Head to
-				// one of the struct fields: we'll use
-				// the json tags for that. Or their
-				// full exact name if they didn't have
-				// a json tag.
-				//vv(" JsonTagMap = %#v", src.JsonTagMap)
-				det, found := src.JsonTagMap[recordKey]
-				//vv("found = %v for recordKey = '%v'; det='%#v'", found, recordKey, det)
+		for _, pair := range src.orderedPairs() {
+			recordKey = ""
+			switch k := pair.Head.(type) {
+			case *SexpStr:
+				recordKey = k.S
+			case *SexpSymbol:
+				recordKey = k.name
+			default:
+				fmt.Printf(" skipping field '%#v' which we don't know how to lookup.", pair.Head)
+				panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%#v'", pair.Head))
+				continue
+			}
+			// We've got to match pair.Head to
+			// one of the struct fields: we'll use
+			// the json tags for that. Or their
+			// full exact name if they didn't have
+			// a json tag.
+			//vv(" JsonTagMap = %#v", src.JsonTagMap)
+			det, found := src.JsonTagMap[recordKey]
+			//vv("found = %v for recordKey = '%v'; det='%#v'", found, recordKey, det)
+			if !found {
+				// try once more, with uppercased version
+				// of record key
+				upperKey := strings.ToUpper(recordKey[:1]) + recordKey[1:]
+				det, found = src.JsonTagMap[upperKey]
+				//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
 				if !found {
-					// try once more, with uppercased version
-					// of record key
-					upperKey := strings.ToUpper(recordKey[:1]) + recordKey[1:]
-					det, found = src.JsonTagMap[upperKey]
-					//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
-					if !found {
-						fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
-						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive. src.JstonTagMap: '%#v'", recordKey, src.JsonTagMap))
-						continue
-					}
-				}
-				//vv(" ****  recordKey = '%s'\n", recordKey)
-				//vv(" we found in pair.Tail: %T !", pair.Tail)
-
-				dref := targVa.Elem()
-				//vv(" deref = %#v / type %T", dref, dref)
-
-				// fld should hold our target when
-				// done recursing through any embedded structs.
-				// TODO: handle embedded pointers to structs too.
-				var fld reflect.Value
-				//vv(" we have an det.EmbedPath of '%#v'", det.EmbedPath)
-				// drill down to the actual target
-				fld = dref
-				for _, p := range det.EmbedPath {
-					//vv("about to call fld.Field(%d) on fld = '%#v'/type=%T", p.ChildFieldNum, fld, fld)
-					fld = fld.Field(p.ChildFieldNum)
-					//vv(" dropping down i=%d through EmbedPath at '%s', fld = %#v ", i, p.ChildName, fld)
+					fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
+					panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive. The fields are: %q", recordKey, slices.Sorted(maps.Keys(src.JsonTagMap))))
+					continue
 				}
-				//vv(" fld = %#v ", fld)
+			}
+			//vv(" ****  recordKey = '%s'\n", recordKey)
+			//vv(" we found in pair.Tail: %T !", pair.Tail)
+
+			dref := targVa.Elem()
+			//vv(" deref = %#v / type %T", dref, dref)
+
+			// fld should hold our target when
+			// done recursing through any embedded structs.
+			// TODO: handle embedded pointers to structs too.
+			var fld reflect.Value
+			//vv(" we have an det.EmbedPath of '%#v'", det.EmbedPath)
+			// drill down to the actual target
+			fld = dref
+			for _, p := range det.EmbedPath {
+				//vv("about to call fld.Field(%d) on fld = '%#v'/type=%T", p.ChildFieldNum, fld, fld)
+				fld = fld.Field(p.ChildFieldNum)
+				//vv(" dropping down i=%d through EmbedPath at '%s', fld = %#v ", i, p.ChildName, fld)
+			}
+			//vv(" fld = %#v ", fld)
 
-				// INVAR: fld points at our target to fill
-				ptrFld := fld.Addr()
-				tmp, needed := unexportHelper(&ptrFld, &fld)
-				if needed {
-					ptrFld = *tmp
-				}
-				_, err := SexpToGoStructs(pair.Tail, ptrFld.Interface(), env, dedup, calldepth+1, top)
-				if err != nil {
-					panic(err)
-					//return nil, err
-				}
+			// INVAR: fld points at our target to fill
+			ptrFld := fld.Addr()
+			tmp, needed := unexportHelper(&ptrFld, &fld)
+			if needed {
+				ptrFld = *tmp
+			}
+			_, err := SexpToGoStructs(pair.Tail, ptrFld.Interface(), env, dedup, calldepth+1, top)
+			if err != nil {
+				panic(err)
+				//return nil, err
 			}
 		}
 	case *SexpPair:
-- 
2.43.0


From 4d2fc8702a3f28a5f26d2673b563d63bc7263d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 50/64] fix: error texts and printed values do not hold the
 addresses of Go values

---
 zygo/builders.go    |  2 +-
 zygo/environment.go |  6 ++--
 zygo/expressions.go |  4 +--
 zygo/functions.go   | 10 +++---
 zygo/gotext.go      | 79 +++++++++++++++++++++++++++++++++++++++++++++
 zygo/hashutils.go   |  4 +--
 zygo/jsonmsgp.go    | 12 +++----
 zygo/pratt.go       |  6 ++--
 zygo/repl.go        |  2 +-
 zygo/scopes.go      |  2 +-
 zygo/stack.go       |  2 +-
 zygo/system.go      |  6 ++--
 zygo/typeutils.go   |  2 +-
 zygo/vm.go          |  2 +-
 14 files changed, 109 insertions(+), 30 deletions(-)
 create mode 100644 zygo/gotext.go

diff --git a/zygo/builders.go b/zygo/builders.go
index f6a542b..7397bcc 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -654,7 +654,7 @@ func baseConstruct(env *Zlisp, f *RegisteredType, nargs int) (Sexp, error) {
 		}
 		return mybool, nil
 	default:
-		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %#v/type=%T", arg, arg)
+		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %s/type=%T", sexpText(arg), arg)
 	}
 	//return SexpNull, fmt.Errorf("unhandled no-arg case in baseConstruct, v has type=%T", v)
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index 0fd1de1..261f3c8 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -543,7 +543,7 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	if funcobj == nil {
 		return fmt.Errorf("not a function on top of datastack: <nil>")
 	}
-	return fmt.Errorf("not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("not a function on top of datastack: '%T/%s'", funcobj, sexpText(funcobj))
 }
 
 func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
@@ -750,7 +750,7 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 	env.parser.NewInput(bufio.NewReader(in))
 	exp, err = env.parser.ParseTokens()
 	if err != nil {
-		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%#v')\n", env.parser.Linenum(), err, err)
+		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%T')\n", env.parser.Linenum(), err, err)
 	}
 
 	in.Close()
@@ -762,7 +762,7 @@ func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
 	env.parser.ResetAddNewInput(stream)
 	expressions, err := env.parser.ParseTokens()
 	if err != nil {
-		return fmt.Errorf("Error on line %d: %v (LoadStream err='%#v')\n", env.parser.Linenum(), err, err)
+		return fmt.Errorf("Error on line %d: %v (LoadStream err='%T')\n", env.parser.Linenum(), err, err)
 	}
 	return env.LoadExpressions(expressions)
 }
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 31c0683..0cc11c3 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -495,14 +495,14 @@ func (r *SexpReflect) SexpString(ps *PrintState) string {
 		case *string:
 			return fmt.Sprintf("`%v`", reflect.Value(r.Val).Elem().Interface())
 		default:
-			return fmt.Sprintf("%v", reflect.Value(r.Val).Elem().Interface())
+			return goText(reflect.Value(r.Val).Elem(), false)
 		}
 	}
 	iface := reflect.Value(r.Val).Interface()
 	//Q("in SexpReflect.SexpString(indent); type = %T", iface)
 	switch iface.(type) {
 	default:
-		return fmt.Sprintf("%v", iface)
+		return goText(reflect.Value(r.Val), false)
 	}
 }
 
diff --git a/zygo/functions.go b/zygo/functions.go
index 9cde2f4..b40d64e 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -272,7 +272,7 @@ func ArrayAccessFunction(name string) ZlispUserFunction {
 			case *SexpInt:
 				i = int(j.Val)
 			default:
-				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%#v'/type = %T", j, j)
+				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%s'/type = %T", sexpText(j), j)
 			}
 		}
 
@@ -936,7 +936,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	case *SexpFunction:
 		fun = e
 	default:
-		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%#v'", e, e)
+		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%s'", e, sexpText(e))
 	}
 
 	switch e := args[1].(type) {
@@ -946,7 +946,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		x, err := MapList(env, fun, e)
 		return x, err
 	default:
-		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %#v", e, e)
+		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %s", e, sexpText(e))
 	}
 }
 
@@ -1311,8 +1311,8 @@ func threadingHelper(env *Zlisp, hash *SexpHash, args []Sexp) (Sexp, error) {
 		h, isHash := field.(*SexpHash)
 		if !isHash {
 			return SexpNull, fmt.Errorf("request for field '%s' was "+
-				"not on a hash or defmap; instead type %T with value '%#v'",
-				args[1].SexpString(nil), field, field)
+				"not on a hash or defmap; instead type %T with value '%s'",
+				args[1].SexpString(nil), field, sexpText(field))
 		}
 		return threadingHelper(env, h, args[1:])
 	}
diff --git a/zygo/gotext.go b/zygo/gotext.go
new file mode 100644
index 0000000..1cca3d9
--- /dev/null
+++ b/zygo/gotext.go
@@ -0,0 +1,79 @@
+package zygo
+
+import (
+	"fmt"
+	"reflect"
+	"sort"
+	"strings"
+)
+
+// sexpText is how a value appears in an error text: as it prints, and
+// not as the Go structs that hold it, whose addresses differ from
+// run to run.
+func sexpText(x Sexp) string {
+	if x == nil || (reflect.ValueOf(x).Kind() == reflect.Ptr && reflect.ValueOf(x).IsNil()) {
+		return "<nil>"
+	}
+	return x.SexpString(nil)
+}
+
+// goText formats a Go value as fmt does with %v (or with %#v if
+// goSyntax is set), but follows the pointers inside it rather than
+// printing their addresses.
+func goText(v reflect.Value, goSyntax bool) string {
+	return goTextUnder(v, goSyntax, make(map[uintptr]bool))
+}
+
+// the pointers that led to v are in above.
+func goTextUnder(v reflect.Value, goSyntax bool, above map[uintptr]bool) string {
+	typ, open, sep, clos := "", "[", " ", "]"
+	if goSyntax && v.IsValid() {
+		typ, open, sep, clos = v.Type().String(), "{", ", ", "}"
+	}
+	var parts []string
+
+	switch {
+	case isNonNil(v, reflect.Ptr):
+		p := v.Pointer()
+		if above[p] {
+			return "&..."
+		}
+		above[p] = true
+		defer delete(above, p)
+		return "&" + goTextUnder(v.Elem(), goSyntax, above)
+	case isNonNil(v, reflect.Interface):
+		return goTextUnder(v.Elem(), goSyntax, above)
+	case isNonNil(v, reflect.Func), isNonNil(v, reflect.Chan), isNonNil(v, reflect.UnsafePointer):
+		return v.Type().String()
+	case v.Kind() == reflect.Struct && v.Type().PkgPath() != "time":
+		open, clos = "{", "}"
+		for i := 0; i < v.NumField(); i++ {
+			part := goTextUnder(v.Field(i), goSyntax, above)
+			if goSyntax {
+				part = v.Type().Field(i).Name + ":" + part
+			}
+			parts = append(parts, part)
+		}
+	case v.Kind() == reflect.Array, isNonNil(v, reflect.Slice) && v.Type().Elem().Kind() != reflect.Uint8:
+		for i := 0; i < v.Len(); i++ {
+			parts = append(parts, goTextUnder(v.Index(i), goSyntax, above))
+		}
+	case isNonNil(v, reflect.Map):
+		if !goSyntax {
+			open = "map["
+		}
+		for _, k := range v.MapKeys() {
+			parts = append(parts, goTextUnder(k, goSyntax, above)+":"+goTextUnder(v.MapIndex(k), goSyntax, above))
+		}
+		sort.Strings(parts)
+	case goSyntax:
+		return fmt.Sprintf("%#v", v)
+	default:
+		return fmt.Sprintf("%v", v)
+	}
+	return typ + open + strings.Join(parts, sep) + clos
+}
+
+func isNonNil(v reflect.Value, k reflect.Kind) bool {
+	return v.Kind() == k && !v.IsNil()
+}
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 73f4a11..e29e95e 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -481,7 +481,7 @@ func HashIsEmpty(hash *SexpHash) bool {
 func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
-		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
+		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%s'", keyOrd, sexpText(keyOrd))
 	}
 	held := make(map[string]Sexp)
 	for _, key := range hash.KeyOrder {
@@ -532,7 +532,7 @@ func GoMethodListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	h, isHash := args[0].(*SexpHash)
 	if !isHash {
-		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%#v", args[0], args[0])
+		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%s", args[0], sexpText(args[0]))
 	}
 	if h.NumMethod != -1 {
 		// use cached results
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index fce9c36..364c7be 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -590,7 +590,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 	case *SexpBool:
 		return e.Val
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", e, e)
+		fmt.Printf("\n error: unknown type: %T in '%s'\n", e, sexpText(e))
 	}
 	return nil
 }
@@ -609,7 +609,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 	case *SexpReflect:
 		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see SexpReflect '%[1]T'", asHash.Val.Interface())
 	default:
-		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%[1]T'/val=%#[1]v", arg)
+		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%T'/val=%s", arg, sexpText(arg))
 	case *SexpHash:
 		tn := asHash.TypeName
 		//vv("ToGo: SexpHash for tn='%s', shadowSet='%v'", tn, asHash.ShadowSet)
@@ -650,7 +650,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		asHash.GoShadowStruct = newStruct
 		asHash.GoShadowStructVa = reflect.ValueOf(newStruct)
 		asHash.ShadowSet = true
-		return &SexpStr{S: fmt.Sprintf("%#v", newStruct)}, nil
+		return &SexpStr{S: goText(reflect.ValueOf(newStruct), true)}, nil
 	}
 
 }
@@ -1049,8 +1049,8 @@ func SexpToGoStructs(
 			case *SexpSymbol:
 				recordKey = k.name
 			default:
-				fmt.Printf(" skipping field '%#v' which we don't know how to lookup.", pair.Head)
-				panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%#v'", pair.Head))
+				fmt.Printf(" skipping field '%s' which we don't know how to lookup.", sexpText(pair.Head))
+				panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%s'", sexpText(pair.Head)))
 				continue
 			}
 			// We've got to match pair.Head to
@@ -1125,7 +1125,7 @@ func SexpToGoStructs(
 	case *SexpBool:
 		targVa.Elem().Set(reflect.ValueOf(src.Val))
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", src, src)
+		fmt.Printf("\n error: unknown type: %T in '%s'\n", src, sexpText(src))
 	}
 	return target, nil
 }
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 24e2507..61734c9 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -731,12 +731,12 @@ func InfixArgsToArray(name string, args []Sexp) (*SexpArray, bool, error) {
 				return nil, false, fmt.Errorf("infixExpand expects (infix []) as its argument; instead we saw '%T'", v.Tail)
 			}
 		}
-		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%s'", name, sexpText(args[0]))
 	case *SexpHash:
 		// an empty basic block {} that turned into an empty hash.
 		return nil, true, nil
 	default:
-		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%s'", name, sexpText(args[0]))
 	}
 	return arr, false, nil
 }
@@ -1125,7 +1125,7 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		return 0, nil
 	}
 
-	return 0, fmt.Errorf("LeftBindingPower: unhandled sx :%#v", sx)
+	return 0, fmt.Errorf("LeftBindingPower: unhandled sx :%s", sexpText(sx))
 }
 
 func (p *Pratt) ShowCnodeStack() {
diff --git a/zygo/repl.go b/zygo/repl.go
index 652584a..950aed2 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -132,7 +132,7 @@ func (pr *Prompter) getExpressionWithLiner(env *Zlisp, reader *bufio.Reader, noL
 			env.parser.NewInput(bytes.NewBuffer([]byte(nextline + "\n")))
 			continue
 		}
-		return "", nil, fmt.Errorf("Error on line %d: %v (repl err: %#v)\n", env.parser.Linenum(), err, err)
+		return "", nil, fmt.Errorf("Error on line %d: %v (repl err: %T)\n", env.parser.Linenum(), err, err)
 	}
 	return strings.Join(lines, "\n"), xs, err
 }
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 145c504..603c90b 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -322,7 +322,7 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	indent := ps.GetIndent()
 	rep := strings.Repeat(" ", indent)
 	rep4 := strings.Repeat(" ", indent+4)
-	s += fmt.Sprintf("%s %s  %s (%p)\n", rep, label, scop.Name, scop)
+	s += fmt.Sprintf("%s %s  %s\n", rep, label, scop.Name)
 	if scop.IsGlobal && !env.showGlobalScope {
 		s += fmt.Sprintf("%s (global scope - omitting content for brevity)\n", rep4)
 		return
diff --git a/zygo/stack.go b/zygo/stack.go
index 314fc35..4a44343 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -161,7 +161,7 @@ func (stack *Stack) IsStackElem() {}
 func (stack *Stack) Show(env *Zlisp, ps *PrintState, label string) (string, error) {
 	//P("debug: Stack.Show starting with stack = %p, ps = %p, Package: '%s', IsPkg: %v", stack, ps, stack.PackageName, stack.IsPackage)
 	if ps.GetSeen(stack) {
-		return fmt.Sprintf("already-saw Stack %p in Show", stack), nil
+		return "already-saw Stack in Show", nil
 	} else {
 		ps.SetSeen(stack, "Stack in Show")
 	}
diff --git a/zygo/system.go b/zygo/system.go
index d54c0f0..41fb6fa 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -45,7 +45,7 @@ func SystemFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	flat, err := flattenToWordsHelper(args)
 	if err != nil {
-		return SexpNull, fmt.Errorf("flatten on '%#v' failed with error '%s'", args, err)
+		return SexpNull, fmt.Errorf("flatten on '%s' failed with error '%s'", sexpText(&SexpArray{Val: args}), err)
 	}
 	if len(flat) == 0 {
 		return SexpNull, WrongNargs
@@ -99,7 +99,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 		case *SexpPair:
 			carry, err := ListToArray(c)
 			if err != nil {
-				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%#v'", err, c, c)
+				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%s'", err, c, sexpText(c))
 			}
 			moreWords, err := flattenToWordsHelper(carry)
 			if err != nil {
@@ -107,7 +107,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 			}
 			stringArgs = append(stringArgs, moreWords...)
 		default:
-			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%#v'", c, c)
+			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%s'", c, sexpText(c))
 		}
 	} // end i over args
 	// INVAR: stringArgs has our flattened list.
diff --git a/zygo/typeutils.go b/zygo/typeutils.go
index fdc24a1..575da4f 100644
--- a/zygo/typeutils.go
+++ b/zygo/typeutils.go
@@ -203,7 +203,7 @@ func TypeOf(expr Sexp) *SexpStr {
 	case *SexpDur:
 		v = "time.Duration"
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", e, e)
+		fmt.Printf("\n error: unknown type: %T in '%s'\n", e, sexpText(e))
 	}
 	return &SexpStr{S: v}
 }
diff --git a/zygo/vm.go b/zygo/vm.go
index e71be17..5121f38 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -407,7 +407,7 @@ func (d DispatchInstr) Execute(env *Zlisp) error {
 		_, err := env.CallUserFunction(sxArrayOf, funcobj.SexpString(nil), d.nargs+1)
 		return err
 	}
-	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%s'", funcobj, sexpText(funcobj))
 }
 
 type ReturnInstr struct {
-- 
2.43.0


From 89ce89bee4416e7e511b82e0040eba3657db691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 51/64] fix: dumps of the interpreter do not hold the addresses
 of Go values

---
 zygo/environment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 261f3c8..dacba98 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -865,7 +865,7 @@ func (env *Zlisp) DumpEnvironment() {
 	if !env.curfunc.user {
 		DumpFunction(env.curfunc.fun, env.pc)
 	}
-	fmt.Printf("DataStack (%p): (length %d)\n", env.datastack, env.datastack.Size())
+	fmt.Printf("DataStack: (length %d)\n", env.datastack.Size())
 	env.datastack.PrintStack()
 	fmt.Printf("Linear stack: (length %d)\n", env.linearstack.Size())
 	//env.linearstack.PrintScopeStack()
@@ -1015,7 +1015,7 @@ func (env *Zlisp) showStackHelper(stack *Stack, name string) {
 	if n < 0 {
 		note = "(empty)"
 	}
-	fmt.Printf(" ========  env(%p).%s is %v deep: %s\n", env, name, n+1, note)
+	fmt.Printf(" ========  env.%s is %v deep: %s\n", name, n+1, note)
 	s := ""
 	for i := 0; i <= n; i++ {
 		ele, err := stack.Get(n - i)
-- 
2.43.0


From 06112a4726f91aee4680abe8349c10e9e5eda2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 52/64] fix: values in the output of printf and in texts made
 with %v show no addresses

---
 zygo/gotext.go   | 52 ++++++++++++++++++++++++++++++++++++++++++++++++
 zygo/jsonmsgp.go | 24 +++++++++++-----------
 2 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/zygo/gotext.go b/zygo/gotext.go
index 1cca3d9..1d346b7 100644
--- a/zygo/gotext.go
+++ b/zygo/gotext.go
@@ -26,6 +26,12 @@ func goText(v reflect.Value, goSyntax bool) string {
 
 // the pointers that led to v are in above.
 func goTextUnder(v reflect.Value, goSyntax bool, above map[uintptr]bool) string {
+	if v.IsValid() && v.CanInterface() {
+		x, isSexp := v.Interface().(Sexp)
+		if isSexp {
+			return sexpText(x)
+		}
+	}
 	typ, open, sep, clos := "", "[", " ", "]"
 	if goSyntax && v.IsValid() {
 		typ, open, sep, clos = v.Type().String(), "{", ", ", "}"
@@ -77,3 +83,49 @@ func goTextUnder(v reflect.Value, goSyntax bool, above map[uintptr]bool) string
 func isNonNil(v reflect.Value, k reflect.Kind) bool {
 	return v.Kind() == k && !v.IsNil()
 }
+
+// Every value appears in the output of fmt as it prints,
+// so that neither error texts nor (printf) show addresses.
+// (printf "%p" x) still does.
+
+func formatSexp(s fmt.State, verb rune, x Sexp) {
+	if verb == 'v' {
+		verb = 's'
+	}
+	fmt.Fprintf(s, strings.ReplaceAll(fmt.FormatString(s, verb), "#", ""), sexpText(x))
+}
+
+func (x *SexpArraySelector) Format(s fmt.State, verb rune) { formatSexp(s, verb, x) }
+func (x *RecordDefn) Format(s fmt.State, verb rune)        { formatSexp(s, verb, x) }
+func (x *SexpField) Format(s fmt.State, verb rune)         { formatSexp(s, verb, x) }
+func (x *SexpChannel) Format(s fmt.State, verb rune)       { formatSexp(s, verb, x) }
+func (x *SexpComment) Format(s fmt.State, verb rune)       { formatSexp(s, verb, x) }
+func (x *SexpPointer) Format(s fmt.State, verb rune)       { formatSexp(s, verb, x) }
+func (x *SexpClosureEnv) Format(s fmt.State, verb rune)    { formatSexp(s, verb, x) }
+func (x *SexpSemicolon) Format(s fmt.State, verb rune)     { formatSexp(s, verb, x) }
+func (x *SexpComma) Format(s fmt.State, verb rune)         { formatSexp(s, verb, x) }
+func (x *SexpSentinel) Format(s fmt.State, verb rune)      { formatSexp(s, verb, x) }
+func (x *SexpPair) Format(s fmt.State, verb rune)          { formatSexp(s, verb, x) }
+func (x *SexpArray) Format(s fmt.State, verb rune)         { formatSexp(s, verb, x) }
+func (x *SexpError) Format(s fmt.State, verb rune)         { formatSexp(s, verb, x) }
+func (x *SexpReflect) Format(s fmt.State, verb rune)       { formatSexp(s, verb, x) }
+func (x *SexpBool) Format(s fmt.State, verb rune)          { formatSexp(s, verb, x) }
+func (x *SexpInt) Format(s fmt.State, verb rune)           { formatSexp(s, verb, x) }
+func (x *SexpFloat) Format(s fmt.State, verb rune)         { formatSexp(s, verb, x) }
+func (x *SexpChar) Format(s fmt.State, verb rune)          { formatSexp(s, verb, x) }
+func (x *SexpStr) Format(s fmt.State, verb rune)           { formatSexp(s, verb, x) }
+func (x *SexpSymbol) Format(s fmt.State, verb rune)        { formatSexp(s, verb, x) }
+func (x *SexpLazyArg) Format(s fmt.State, verb rune)       { formatSexp(s, verb, x) }
+func (x *SexpInterfaceDecl) Format(s fmt.State, verb rune) { formatSexp(s, verb, x) }
+func (x *SexpFunction) Format(s fmt.State, verb rune)      { formatSexp(s, verb, x) }
+func (x *SexpStackmark) Format(s fmt.State, verb rune)     { formatSexp(s, verb, x) }
+func (x *RegisteredType) Format(s fmt.State, verb rune)    { formatSexp(s, verb, x) }
+func (x *SexpHash) Format(s fmt.State, verb rune)          { formatSexp(s, verb, x) }
+func (x *SexpHashSelector) Format(s fmt.State, verb rune)  { formatSexp(s, verb, x) }
+func (x *SexpRaw) Format(s fmt.State, verb rune)           { formatSexp(s, verb, x) }
+func (x *SexpRegexp) Format(s fmt.State, verb rune)        { formatSexp(s, verb, x) }
+func (x *Scope) Format(s fmt.State, verb rune)             { formatSexp(s, verb, x) }
+func (x *Stack) Format(s fmt.State, verb rune)             { formatSexp(s, verb, x) }
+func (x *SexpTime) Format(s fmt.State, verb rune)          { formatSexp(s, verb, x) }
+func (x *SexpDate) Format(s fmt.State, verb rune)          { formatSexp(s, verb, x) }
+func (x *SexpDur) Format(s fmt.State, verb rune)           { formatSexp(s, verb, x) }
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 364c7be..93262eb 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -451,9 +451,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		nm := fmt.Sprintf("%T", val)
 		rt := GoStructRegistry.Lookup(nm)
 		if rt == nil {
-			fmt.Printf("unknown type '%s' in type switch, val = %#v.  type = %T.\n", nm, val, val)
+			fmt.Printf("unknown type '%s' in type switch, val = %s.  type = %T.\n", nm, goText(reflect.ValueOf(val), true), val)
 		} else {
-			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %#v.  type = %T. TODO: make a record for it.\n", nm, val, val)
+			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %s.  type = %T. TODO: make a record for it.\n", nm, goText(reflect.ValueOf(val), true), val)
 		}
 		return SexpNull
 	}
@@ -565,7 +565,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 			val := SexpToGo(pair.Tail, env, dedup)
 			keyString, isStringKey := key.(string)
 			if !isStringKey {
-				panic(fmt.Errorf("key '%v' should have been a string, but was not.", key))
+				panic(fmt.Errorf("key '%v' should have been a string, but was not.", goText(reflect.ValueOf(key), false)))
 			}
 			m[keyString] = val
 		}
@@ -858,11 +858,11 @@ func SexpToGoStructs(
 					val := SexpToGo(pair.Tail, env, dedup)
 					keys, isstr := key.(string)
 					if !isstr {
-						panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+						panic(fmt.Errorf("key '%v' should have been an string, but was not.", goText(reflect.ValueOf(key), false)))
 					}
 					vals, isstr := val.(string)
 					if !isstr {
-						panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
+						panic(fmt.Errorf("val '%v' should have been an string, but was not.", goText(reflect.ValueOf(val), false)))
 					}
 					m[keys] = vals
 				}
@@ -876,7 +876,7 @@ func SexpToGoStructs(
 					val := SexpToGo(pair.Tail, env, dedup)
 					keys, isstr := key.(string)
 					if !isstr {
-						panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+						panic(fmt.Errorf("key '%v' should have been an string, but was not.", goText(reflect.ValueOf(key), false)))
 					}
 					switch x := val.(type) {
 					case float64:
@@ -884,7 +884,7 @@ func SexpToGoStructs(
 					case int64:
 						m[keys] = float64(x)
 					default:
-						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
+						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", goText(reflect.ValueOf(val), false)))
 					}
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
@@ -899,7 +899,7 @@ func SexpToGoStructs(
 					val := SexpToGo(pair.Tail, env, dedup)
 					keyint64, isint64Key := key.(int64)
 					if !isint64Key {
-						panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
+						panic(fmt.Errorf("key '%v' should have been an int64, but was not.", goText(reflect.ValueOf(key), false)))
 					}
 					switch x := val.(type) {
 					case float64:
@@ -907,7 +907,7 @@ func SexpToGoStructs(
 					case int64:
 						m[keyint64] = float64(x)
 					default:
-						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
+						panic(fmt.Errorf("val '%v' should have been an float64, but was not.", goText(reflect.ValueOf(val), false)))
 					}
 				}
 				targVa.Elem().Set(reflect.ValueOf(m))
@@ -929,7 +929,7 @@ func SexpToGoStructs(
 						//val := SexpToGo(pair.Tail, env, dedup)
 						keys, isstr := key.(string)
 						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+							panic(fmt.Errorf("key '%v' should have been an string, but was not.", goText(reflect.ValueOf(key), false)))
 						}
 						//vv("keys = '%v'", keys)
 
@@ -947,9 +947,9 @@ func SexpToGoStructs(
 					//vv("target returning = '%#v'", target)
 					return target, nil
 				}
-				//vv("have reflect.Map: target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v' mapElemTyp='%v' mapElemKind='%v' mapKeyTyp='%v' mapKeyKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind, mapElemTyp, mapElemKind, mapKeyTyp, mapKeyKind)
+				//vv("have reflect.Map: target has type = '%T', value='%s'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v' mapElemTyp='%v' mapElemKind='%v' mapKeyTyp='%v' mapKeyKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind, mapElemTyp, mapElemKind, mapKeyTyp, mapKeyKind)
 			}
-			panic(fmt.Sprintf("not done here yet, target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind))
+			panic(fmt.Sprintf("not done here yet, target has type = '%T', value='%s'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, goText(reflect.ValueOf(target), true), targTyp, targKind, targElemTyp, targElemKind))
 
 			// TODO: don't try to translate into a Go struct,
 			// but instead... what? just a map[string]interface{}
-- 
2.43.0


From ae94c62bde96fc99b7cf67ab2c631055fc5173af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 53/64] fix: a sandboxed interpreter has no include, sys or
 import

---
 zygo/builders.go    |  7 ++++---
 zygo/environment.go | 10 +++++++++-
 zygo/generator.go   |  3 +++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 7397bcc..d0137b8 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -29,7 +29,10 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.ImportMinimalBuilder()
 	env.AddBuilder("infixExpand", InfixBuilder)
 	env.AddBuilder("infix", InfixBuilder)
-	env.AddBuilder("sys", SystemBuilder)
+	if !env.sandboxed {
+		env.AddBuilder("sys", SystemBuilder)
+		env.AddBuilder("import", ImportPackageBuilder)
+	}
 	env.AddBuilder("struct", StructBuilder)
 	env.AddBuilder("func", FuncBuilder)
 	env.AddBuilder("method", FuncBuilder)
@@ -40,8 +43,6 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.AddBuilder("expectError", ExpectErrorBuilder)
 	//	env.AddBuilder("&", AddressOfBuilder)
 
-	env.AddBuilder("import", ImportPackageBuilder)
-
 	env.AddFunction("sliceOf", SliceOfFunction)
 	env.AddFunction("ptr", PointerToFunction)
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index dacba98..4fa503c 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -59,6 +59,10 @@ type Zlisp struct {
 
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
+
+	// set by NewZlispSandbox: no way to the outside world may be added
+	// by the standard setup, or is open to the special forms.
+	sandboxed bool
 }
 
 // allow clients to establish a callback to
@@ -97,7 +101,9 @@ func (env *Zlisp) Close() error {
 // NewZlispSandbox returns a new *Zlisp instance that does not allow the
 // user to get to the outside world
 func NewZlispSandbox() *Zlisp {
-	return NewZlispWithFuncs(SandboxSafeFunctions())
+	env := NewZlispWithFuncs(SandboxSafeFunctions())
+	env.sandboxed = true
+	return env
 }
 
 // NewZlispWithFuncs returns a new *Zlisp instance with access to only the given builtin functions
@@ -162,6 +168,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv := new(Zlisp)
 	dupenv.parser = env.parser
 	dupenv.baseTypeCtor = env.baseTypeCtor
+	dupenv.sandboxed = env.sandboxed
 	dupenv.datastack = env.datastack.Clone()
 	dupenv.linearstack = env.linearstack.Clone()
 	dupenv.addrstack = env.addrstack.Clone()
@@ -200,6 +207,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv := new(Zlisp)
 	dupenv.parser = env.parser
 	dupenv.baseTypeCtor = env.baseTypeCtor
+	dupenv.sandboxed = env.sandboxed
 	dupenv.datastack = dupenv.NewStack(DataStackSize)
 	dupenv.linearstack = dupenv.NewStack(ScopeStackSize)
 	dupenv.addrstack = dupenv.NewStack(CallStackSize)
diff --git a/zygo/generator.go b/zygo/generator.go
index 60fc991..eb8ccb3 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -556,6 +556,9 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateInclude(args []Sexp) error {
+	if gen.env.sandboxed {
+		return fmt.Errorf("include: not available in a sandbox")
+	}
 	if len(args) < 1 {
 		return WrongNargs
 	}
-- 
2.43.0


From 5d2dde4f048db886f8ab6c7da77432750abca773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 54/64] fix: a call does not copy the scopes of all its callers

Closures kept the scopes from their function outward, but copied the whole
stack first, so that recursion took time and memory quadratic in its depth.
---
 zygo/closing.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/zygo/closing.go b/zygo/closing.go
index 1a20a9a..81dcf74 100644
--- a/zygo/closing.go
+++ b/zygo/closing.go
@@ -8,22 +8,27 @@ type Closing struct {
 }
 
 func NewClosing(name string, env *Zlisp) *Closing {
-	stk := env.linearstack.Clone()
 	// Be strict: only store scopes from the current lexical function outward
-	// to the current top. Caller scopes below that function are dynamic state.
-	for i := stk.tos; i >= 0; i-- {
+	// to the current top. Caller scopes below that function are dynamic state,
+	// and there may be very many of them.
+	stk := env.linearstack
+	start := 0
+	for i := stk.tos; i > 0; i-- {
 		scop, ok := stk.elements[i].(*Scope)
 		if ok && scop.IsFunction {
-			if i > 0 {
-				trimmed := env.NewStack(stk.Size() - i)
-				for _, elem := range stk.elements[i : stk.tos+1] {
-					trimmed.Push(elem)
-				}
-				stk = trimmed
-			}
+			start = i
 			break
 		}
 	}
+	if start == 0 {
+		stk = stk.Clone()
+	} else {
+		trimmed := env.NewStack(stk.Size() - start)
+		for _, elem := range stk.elements[start : stk.tos+1] {
+			trimmed.Push(elem)
+		}
+		stk = trimmed
+	}
 
 	return &Closing{
 		Stack: stk,
-- 
2.43.0


From 680421e1caeb74be494d8a9c4aa61b485ba6b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:23 +0000
Subject: [PATCH 55/64] fix: deeply nested text is a syntax error, not an
 overflow of the Go stack

---
 zygo/parser.go | 66 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/zygo/parser.go b/zygo/parser.go
index 8d34f46..5a1fc98 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -109,6 +109,10 @@ var UnexpectedEnd error = errors.New("Unexpected end of input")
 
 const SliceDefaultCap = 10
 
+// brackets and prefixes nested more deeply than this are a syntax error: the
+// parser is recursive, and Go does not survive the overflow of its stack.
+const maxParseDepth = 20000
+
 func (p *Parser) getRecur() int64 {
 	return p.recur
 }
@@ -117,6 +121,34 @@ func (parser *Parser) ParseList(depth int, endTokenTyp TokenType) (sx Sexp, err
 	parser.recur++
 	defer func() { parser.recur-- }()
 
+	var start, last *SexpPair
+	for {
+		pair, dotted, err := parser.parseListItem(depth, endTokenTyp)
+		if err != nil {
+			return SexpNull, err
+		}
+		if pair == nil { // the end
+			if start == nil {
+				return SexpNull, nil
+			}
+			return start, nil
+		}
+		if start == nil {
+			start = pair
+		} else {
+			last.Tail = pair
+		}
+		last = pair
+		if dotted {
+			return start, nil
+		}
+	}
+}
+
+// parseListItem parses the next element of a list into a pair of its own; the
+// pair is nil at the closing bracket. After a backslash the element that ends
+// the list, and the closing bracket, are taken as well, and dotted is set.
+func (parser *Parser) parseListItem(depth int, endTokenTyp TokenType) (pair *SexpPair, dotted bool, err error) {
 	lexer := parser.lexer
 	var tok Token
 
@@ -125,7 +157,7 @@ tokFilled:
 		tok, err = lexer.PeekNextToken(0)
 		//Q("\n ParseList(depth=%d) got lexer.PeekNextToken() -> tok='%v' err='%v'\n", depth, tok, err)
 		if err != nil {
-			return SexpNull, err
+			return nil, false, err
 		}
 		if tok.typ != TokenEnd {
 			break tokFilled
@@ -134,7 +166,7 @@ tokFilled:
 		parser.sendMe.Err = ErrMoreInputNeeded
 		ok := parser.yield(parser.sendMe)
 		if !ok {
-			return SexpEnd, ParserHaltRequested
+			return nil, false, ParserHaltRequested
 		}
 		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
 
@@ -145,14 +177,14 @@ tokFilled:
 	// allow TokenRCurly to end a list too, for the JSON {} style hashes.
 	if tok.typ == endTokenTyp {
 		_, _ = lexer.GetNextToken()
-		return SexpNull, nil
+		return nil, false, nil
 	}
 
-	var start = &SexpPair{}
+	var start = &SexpPair{Tail: SexpNull}
 
 	expr, err := parser.ParseExpression(depth + 1)
 	if err != nil {
-		return SexpNull, err
+		return nil, false, err
 	}
 
 	start.Head = expr
@@ -160,7 +192,7 @@ tokFilled:
 	// pauses if the text ends here: it may continue with a backslash.
 	tok, err = parser.ParserPeekNextToken(0)
 	if err != nil {
-		return SexpNull, err
+		return nil, false, err
 	}
 
 	// backslash '\' replaces dot '.'
@@ -169,33 +201,27 @@ tokFilled:
 		_, _ = lexer.GetNextToken()
 		expr, err = parser.ParseExpression(depth + 1)
 		if err != nil {
-			return SexpNull, err
+			return nil, false, err
 		}
 
 		// eat up the end paren
 		_, err = parser.ParserPeekNextToken(0)
 		if err != nil {
-			return SexpNull, err
+			return nil, false, err
 		}
 		tok, err = lexer.GetNextToken()
 		if err != nil {
-			return SexpNull, err
+			return nil, false, err
 		}
 		// make sure it was actually an end paren
 		if tok.typ != TokenRParen {
-			return SexpNull, errors.New("extra value in dotted pair")
+			return nil, false, errors.New("extra value in dotted pair")
 		}
 		start.Tail = expr
-		return start, nil
+		return start, true, nil
 	}
 
-	expr, err = parser.ParseList(depth+1, endTokenTyp)
-	if err != nil {
-		return start, err
-	}
-	start.Tail = expr
-
-	return start, nil
+	return start, false, nil
 }
 
 func (parser *Parser) ParseArray(depth int) (Sexp, error) {
@@ -254,6 +280,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
 
+	if parser.recur > maxParseDepth {
+		return SexpEnd, fmt.Errorf("syntax error: nested more than %d levels deep", maxParseDepth)
+	}
+
 	// defer func() {
 	// 	if res != nil {
 	// 		//Q("returning from ParseExpression at depth=%v with res='%s'\n", depth, res.SexpString(nil))
-- 
2.43.0


From 3b5cc8893ca2ae3b8621747167623fc08e1f45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 56/64] fix: runaway recursion of calls and expressions is an
 error, not an overflow of the Go stack

---
 zygo/environment.go | 28 ++++++++++++++++++++++++++++
 zygo/generator.go   | 39 +++++++++++++++++++++++++++++++++++----
 zygo/listutils.go   | 27 ++++++++++-----------------
 zygo/pratt.go       |  8 ++++++++
 zygo/typeutils.go   | 13 ++++++-------
 5 files changed, 87 insertions(+), 28 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 4fa503c..daaeb6c 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -60,6 +60,14 @@ type Zlisp struct {
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
 
+	// how deeply the generator is nested at the moment, and how deep calls and
+	// generators were where this interpreter was duplicated from another.
+	genDepth   int
+	outerDepth int
+
+	// how deeply Compare is nested at the moment.
+	cmpDepth int
+
 	// set by NewZlispSandbox: no way to the outside world may be added
 	// by the standard setup, or is open to the special forms.
 	sandboxed bool
@@ -169,6 +177,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.parser = env.parser
 	dupenv.baseTypeCtor = env.baseTypeCtor
 	dupenv.sandboxed = env.sandboxed
+	dupenv.outerDepth = env.nestingDepth() + 1
 	dupenv.datastack = env.datastack.Clone()
 	dupenv.linearstack = env.linearstack.Clone()
 	dupenv.addrstack = env.addrstack.Clone()
@@ -208,6 +217,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.parser = env.parser
 	dupenv.baseTypeCtor = env.baseTypeCtor
 	dupenv.sandboxed = env.sandboxed
+	dupenv.outerDepth = env.nestingDepth() + 1
 	dupenv.datastack = dupenv.NewStack(DataStackSize)
 	dupenv.linearstack = dupenv.NewStack(ScopeStackSize)
 	dupenv.addrstack = dupenv.NewStack(CallStackSize)
@@ -554,6 +564,20 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	return fmt.Errorf("not a function on top of datastack: '%T/%s'", funcobj, sexpText(funcobj))
 }
 
+// Calls nested more deeply than maxCallDepth, and expressions nested more deeply
+// than maxGenDepth, are errors: the interpreter is recursive, and Go does not
+// survive the overflow of its stack.
+const maxCallDepth = 50000
+const maxGenDepth = 10000
+
+var errCallsTooDeep = fmt.Errorf("calls nested more than %d levels deep", maxCallDepth)
+var errExprTooDeep = fmt.Errorf("expression nested more than %d levels deep", maxGenDepth)
+
+// nestingDepth says how many calls and expressions are unfinished.
+func (env *Zlisp) nestingDepth() int {
+	return env.outerDepth + env.genDepth + env.addrstack.Size()
+}
+
 func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 	for _, prehook := range env.before {
 		expressions, err := env.datastack.GetExpressions(nargs)
@@ -591,6 +615,10 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 		panic("where's the global scope?")
 	}
 
+	if env.nestingDepth() > maxCallDepth {
+		return errCallsTooDeep
+	}
+
 	env.addrstack.PushAddr(env.curfunc, env.pc+1)
 
 	//P("DEBUG linearstack with this next:")
diff --git a/zygo/generator.go b/zygo/generator.go
index eb8ccb3..671a9b4 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -823,7 +823,35 @@ func (gen *Generator) GenerateArray(arr *SexpArray) error {
 	return nil
 }
 
+// enter is called where the generator starts on a nested expression, and leave
+// where it is done with it.
+func (gen *Generator) enter() error {
+	if gen.env.genDepth >= maxGenDepth {
+		return errExprTooDeep
+	}
+	gen.env.genDepth++
+	return nil
+}
+
+func (gen *Generator) leave() {
+	gen.env.genDepth--
+}
+
+// wrapError tells which expression an error is from. Where expressions are
+// nested deeply it is left to the outer ones, for the texts add up.
+func (gen *Generator) wrapError(expr Sexp, err error) error {
+	if gen.env.genDepth > 50 || err == errExprTooDeep || err == errCallsTooDeep {
+		return err
+	}
+	return fmt.Errorf("Error generating %s:\n%v", expr.SexpString(nil), err)
+}
+
 func (gen *Generator) Generate(expr Sexp) error {
+	if err := gen.enter(); err != nil {
+		return err
+	}
+	defer gen.leave()
+
 	if _, isComment := expr.(*SexpComment); isComment {
 		return nil
 	}
@@ -844,15 +872,13 @@ func (gen *Generator) Generate(expr Sexp) error {
 			if isAssign && pos > 0 && legalLeftHandSide {
 				err := gen.GenerateAssignment(e, pos)
 				if err != nil {
-					return fmt.Errorf("Error generating %s:\n%v",
-						expr.SexpString(nil), err)
+					return gen.wrapError(expr, err)
 				}
 				return nil
 			}
 			err := gen.GenerateCall(e)
 			if err != nil {
-				return fmt.Errorf("Error generating %s:\n%v",
-					expr.SexpString(nil), err)
+				return gen.wrapError(expr, err)
 			}
 			return nil
 		} else {
@@ -1184,6 +1210,11 @@ func isQuotedSymbol(list *SexpPair) (unquotedSymbol Sexp, isQuo bool) {
 // side-effect (or main effect) has to be pushing an expression on the top of
 // the datastack that represents the expanded and substituted expression
 func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
+	if err := gen.enter(); err != nil {
+		return err
+	}
+	defer gen.leave()
+
 	//Q("GenerateSyntaxQuote() called with args[0]='%#v'", args[0])
 
 	if len(args) != 1 {
diff --git a/zygo/listutils.go b/zygo/listutils.go
index b69efad..ed2b53a 100644
--- a/zygo/listutils.go
+++ b/zygo/listutils.go
@@ -23,11 +23,11 @@ func ListToArray(expr Sexp) ([]Sexp, error) {
 }
 
 func MakeList(expressions []Sexp) Sexp {
-	if len(expressions) == 0 {
-		return SexpNull
+	var list Sexp = SexpNull
+	for i := len(expressions) - 1; i >= 0; i-- {
+		list = Cons(expressions[i], list)
 	}
-
-	return Cons(expressions[0], MakeList(expressions[1:]))
+	return list
 }
 
 func MapList(env *Zlisp, fun *SexpFunction, expr Sexp) (Sexp, error) {
@@ -86,21 +86,14 @@ func ConcatTwoLists(a *SexpPair, b Sexp) (Sexp, error) {
 	if !IsList(b) {
 		return SexpNull, NotAList
 	}
-
-	if a.Tail == SexpNull {
-		return Cons(a.Head, b), nil
+	heads, err := ListToArray(a)
+	if err != nil {
+		return SexpNull, err
 	}
-
-	switch t := a.Tail.(type) {
-	case *SexpPair:
-		newtail, err := ConcatTwoLists(t, b)
-		if err != nil {
-			return SexpNull, err
-		}
-		return Cons(a.Head, newtail), nil
+	for i := len(heads) - 1; i >= 0; i-- {
+		b = Cons(heads[i], b)
 	}
-
-	return SexpNull, NotAList
+	return b, nil
 }
 
 func ListLen(expr Sexp) (int, error) {
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 61734c9..cd2557c 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -828,6 +828,8 @@ type Pratt struct {
 
 	Pos    int
 	Stream []Sexp
+
+	depth int // of calls to Expression
 }
 
 func NewPratt(stream []Sexp) *Pratt {
@@ -921,6 +923,12 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 	//	}
 	//}()
 
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxGenDepth {
+		return SexpNull, errExprTooDeep
+	}
+
 	cnode := p.NextToken
 	//if cnode != nil {
 	//	Q("top of Expression, rbp = %v, cnode = '%v'", rbp, cnode.SexpString(nil))
diff --git a/zygo/typeutils.go b/zygo/typeutils.go
index 575da4f..3dfceb1 100644
--- a/zygo/typeutils.go
+++ b/zygo/typeutils.go
@@ -14,14 +14,13 @@ func IsArray(expr Sexp) bool {
 }
 
 func IsList(expr Sexp) bool {
-	if expr == SexpNull {
-		return true
-	}
-	switch list := expr.(type) {
-	case *SexpPair:
-		return IsList(list.Tail)
+	for {
+		pair, isPair := expr.(*SexpPair)
+		if !isPair {
+			return expr == SexpNull
+		}
+		expr = pair.Tail
 	}
-	return false
 }
 
 func IsAssignmentList(expr Sexp, pos int) (bool, int) {
-- 
2.43.0


From f06c46e39fabb2d6533944e3e9e1df30345cdcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 57/64] fix: values that contain themselves or are nested
 deeply do not overflow the Go stack

---
 zygo/callgo.go      |  5 +++
 zygo/comparisons.go | 28 +++++++++----
 zygo/expressions.go | 49 ++++++++++++++---------
 zygo/functions.go   |  7 ++++
 zygo/hashutils.go   | 21 ++++++----
 zygo/jsonmsgp.go    | 23 ++++++++---
 zygo/listutils.go   | 40 ++++++-------------
 zygo/nesting.go     | 97 +++++++++++++++++++++++++++++++++++++++++++++
 zygo/printstate.go  | 33 +++++++++++++++
 zygo/system.go      |  5 +++
 10 files changed, 242 insertions(+), 66 deletions(-)
 create mode 100644 zygo/nesting.go

diff --git a/zygo/callgo.go b/zygo/callgo.go
index c30b1a5..88a71f2 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -108,6 +108,11 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 					"Go: we don't handle double pointers", i-2)
 			}
 			//Q("converting to go '%#v' into -> %#v\n", args[i], va.Interface())
+			err := checkNesting(args[i])
+			if err != nil {
+				return SexpNull, fmt.Errorf("error converting %d-th "+
+					"argument to Go: '%s'", i-2, err)
+			}
 			iface, err := SexpToGoStructs(args[i], va.Interface(), env, nil, 0, va.Interface())
 			if err != nil {
 				return SexpNull, fmt.Errorf("error converting %d-th "+
diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index a4f6d77..6f48d52 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -172,14 +172,21 @@ func (env *Zlisp) comparePair(a *SexpPair, b Sexp) (int, error) {
 		errmsg := fmt.Sprintf("err 96: cannot compare %T to %T", a, b)
 		return 0, errors.New(errmsg)
 	}
-	res, err := env.Compare(a.Head, bp.Head)
-	if err != nil {
-		return 0, err
-	}
-	if res != 0 {
-		return res, nil
+	for {
+		res, err := env.Compare(a.Head, bp.Head)
+		if err != nil {
+			return 0, err
+		}
+		if res != 0 {
+			return res, nil
+		}
+		nexta, aIsPair := a.Tail.(*SexpPair)
+		nextb, bIsPair := bp.Tail.(*SexpPair)
+		if !aIsPair || !bIsPair {
+			return env.Compare(a.Tail, bp.Tail)
+		}
+		a, bp = nexta, nextb
 	}
-	return env.Compare(a.Tail, bp.Tail)
 }
 
 func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
@@ -252,6 +259,13 @@ func comparePointers(a *SexpPointer, bs Sexp) (int, error) {
 func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 
 	var err error
+	if env != nil {
+		if env.cmpDepth >= maxValueDepth {
+			return 0, errValueTooDeep
+		}
+		env.cmpDepth++
+		defer func() { env.cmpDepth-- }()
+	}
 	if sel, isSel := a.(Selector); isSel {
 		a, err = sel.RHS(env)
 		if err != nil {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 0cc11c3..2a82a48 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -233,27 +233,33 @@ func Cons(a Sexp, b Sexp) *SexpPair {
 }
 
 func (pair *SexpPair) SexpString(ps *PrintState) string {
-	str := "("
+	ps, ok := ps.Enter(pair)
+	if !ok {
+		return "..."
+	}
+	var str strings.Builder
+	str.WriteString("(")
 
 	for {
 		switch pair.Tail.(type) {
 		case *SexpPair:
-			str += pair.Head.SexpString(ps) + " "
+			str.WriteString(pair.Head.SexpString(ps))
+			str.WriteString(" ")
 			pair = pair.Tail.(*SexpPair)
 			continue
 		}
 		break
 	}
 
-	str += pair.Head.SexpString(ps)
+	str.WriteString(pair.Head.SexpString(ps))
 
-	if pair.Tail == SexpNull {
-		str += ")"
-	} else {
-		str += " \\ " + pair.Tail.SexpString(ps) + ")"
+	if pair.Tail != SexpNull {
+		str.WriteString(" \\ ")
+		str.WriteString(pair.Tail.SexpString(ps))
 	}
+	str.WriteString(")")
 
-	return str
+	return str.String()
 }
 func (r *SexpPair) Type() *RegisteredType {
 	return nil // TODO what should this be?
@@ -299,6 +305,10 @@ func (r *SexpArray) Type() *RegisteredType {
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
+	ps, ok := ps.Enter(arr)
+	if !ok {
+		return "..."
+	}
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
@@ -334,37 +344,38 @@ func (arr *SexpArray) SexpString(ps *PrintState) string {
 		return opn + cls
 	}
 	ta := arr.IsFuncDeclTypeArray
-	str := opn
+	var str strings.Builder
+	str.WriteString(opn)
 
 	last := n - 1
 	var comma2 string
 	for i, sexp := range arr.Val {
-		str += indInner + sexp.SexpString(ps)
+		str.WriteString(indInner)
+		str.WriteString(sexp.SexpString(ps))
 		comma2 = comma
 		if i == last {
 			comma2 = ""
 		}
 		if ta {
 			if i%2 == 0 {
-				str += ":"
+				str.WriteString(":")
 			} else {
-				str += comma2 + " "
+				str.WriteString(comma2 + " ")
 			}
 		} else {
 			if pretty {
-				str += comma2 + "\n"
+				str.WriteString(comma2 + "\n")
 			} else {
-				str += comma2 + " "
+				str.WriteString(comma2 + " ")
 			}
 		}
 	}
-	m := len(str)
+	all := str.String()
+	all = all[:len(all)-1]
 	if pretty {
-		str = str[:m-1] + "\n" + indInner + cls
-	} else {
-		str = str[:m-1] + indInner + cls
+		all += "\n"
 	}
-	return str
+	return all + indInner + cls
 }
 
 func (e *SexpError) SexpString(ps *PrintState) string {
diff --git a/zygo/functions.go b/zygo/functions.go
index b40d64e..71eea71 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -950,6 +950,9 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 }
 
+// makeArray refuses to make larger arrays: Go does not survive running out of memory.
+const maxArraySize = 100000000
+
 func MakeArrayFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if len(args) < 1 {
 		return SexpNull, WrongNargs
@@ -970,6 +973,10 @@ func MakeArrayFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		fill = SexpNull
 	}
 
+	if size > maxArraySize {
+		return SexpNull, fmt.Errorf("array of more than %d elements", maxArraySize)
+	}
+
 	arr := make([]Sexp, size)
 	for i := range arr {
 		arr[i] = fill
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index e29e95e..f13b3eb 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -906,6 +906,10 @@ func (hash *SexpHash) ShortName() string {
 }
 
 func (hash *SexpHash) SexpString(ps *PrintState) string {
+	ps, ok := ps.Enter(hash)
+	if !ok {
+		return "..."
+	}
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
@@ -930,6 +934,8 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 		}
 	}
 
+	var out strings.Builder
+	out.WriteString(str)
 	lastKey := hash.NumKeys
 	onKey := 0
 	for _, key := range hash.KeyOrder {
@@ -939,34 +945,35 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			switch s := key.(type) {
 			case *SexpStr:
 				if asJSON {
-					str += indInner + jsonQuote(s.S) + ":"
+					out.WriteString(indInner + jsonQuote(s.S) + ":")
 				} else {
-					str += indInner + strconv.Quote(s.S) + `:`
+					out.WriteString(indInner + strconv.Quote(s.S) + `:`)
 				}
 			case *SexpSymbol:
 				if asJSON {
-					str += indInner + jsonQuote(s.name) + ":"
+					out.WriteString(indInner + jsonQuote(s.name) + ":")
 				} else {
-					str += indInner + s.name + ":"
+					out.WriteString(indInner + s.name + ":")
 				}
 			default:
 				if asJSON {
-					str += indInner + jsonQuote(key.SexpString(nil)) + ":"
+					out.WriteString(indInner + jsonQuote(key.SexpString(nil)) + ":")
 				} else {
-					str += indInner + key.SexpString(innerPs) + ":"
+					out.WriteString(indInner + key.SexpString(innerPs) + ":")
 				}
 			}
 			comma2 := comma
 			if onKey == lastKey {
 				comma2 = ""
 			}
-			str += val.SexpString(innerPs) + comma2 + " " + prettyEnd
+			out.WriteString(val.SexpString(innerPs) + comma2 + " " + prettyEnd)
 
 		} else {
 			// ignore deleted keys
 			// don't panic(err)
 		}
 	}
+	str = out.String()
 	if displayHashInCurly {
 		if len(hash.Map) > 0 {
 			return str[:len(str)-1] + prettyEnd + origIndInner + "}"
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 93262eb..789014b 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -117,6 +117,13 @@ func SexpToJson(exp Sexp) string {
 }
 
 func sexpToJson(exp Sexp) (string, error) {
+	if err := checkNesting(exp); err != nil {
+		return "", err
+	}
+	return jsonHelper(exp)
+}
+
+func jsonHelper(exp Sexp) (string, error) {
 	switch e := exp.(type) {
 	case *SexpHash:
 		return e.jsonHashHelper()
@@ -163,11 +170,12 @@ func jsonQuote(s string) string {
 }
 
 func (hash *SexpHash) jsonHashHelper() (string, error) {
-	str := `{"Atype":` + jsonQuote(hash.TypeName)
+	var str strings.Builder
+	str.WriteString(`{"Atype":` + jsonQuote(hash.TypeName))
 
 	n := len(hash.KeyOrder)
 	if n == 0 {
-		return str + "}", nil
+		return str.String() + "}", nil
 	}
 
 	ko := []string{}
@@ -186,19 +194,19 @@ func (hash *SexpHash) jsonHashHelper() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		js, err := sexpToJson(val)
+		js, err := jsonHelper(val)
 		if err != nil {
 			return "", err
 		}
-		str += `, ` + keyst + `:` + js
+		str.WriteString(`, ` + keyst + `:` + js)
 	}
-	return str + `, "zKeyOrder":[` + strings.Join(ko, ", ") + "]}", nil
+	return str.String() + `, "zKeyOrder":[` + strings.Join(ko, ", ") + "]}", nil
 }
 
 func (arr *SexpArray) jsonArrayHelper() (string, error) {
 	elems := []string{}
 	for _, sexp := range arr.Val {
-		js, err := sexpToJson(sexp)
+		js, err := jsonHelper(sexp)
 		if err != nil {
 			return "", err
 		}
@@ -611,6 +619,9 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 	default:
 		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%T'/val=%s", arg, sexpText(arg))
 	case *SexpHash:
+		if err := checkNesting(asHash); err != nil {
+			return SexpNull, fmt.Errorf("ToGoFunction (togo) error: %s", err)
+		}
 		tn := asHash.TypeName
 		//vv("ToGo: SexpHash for tn='%s', shadowSet='%v'", tn, asHash.ShadowSet)
 
diff --git a/zygo/listutils.go b/zygo/listutils.go
index ed2b53a..c8d6d5c 100644
--- a/zygo/listutils.go
+++ b/zygo/listutils.go
@@ -31,34 +31,20 @@ func MakeList(expressions []Sexp) Sexp {
 }
 
 func MapList(env *Zlisp, fun *SexpFunction, expr Sexp) (Sexp, error) {
-	if expr == SexpNull {
-		return SexpNull, nil
-	}
-
-	var list = &SexpPair{}
-	switch e := expr.(type) {
-	case *SexpPair:
-		list.Head = e.Head
-		list.Tail = e.Tail
-	default:
-		return SexpNull, NotAList
-	}
-
-	var err error
-
-	list.Head, err = env.Apply(fun, []Sexp{list.Head})
-
-	if err != nil {
-		return SexpNull, err
-	}
-
-	list.Tail, err = MapList(env, fun, list.Tail)
-
-	if err != nil {
-		return SexpNull, err
+	var heads []Sexp
+	for expr != SexpNull {
+		pair, isPair := expr.(*SexpPair)
+		if !isPair {
+			return SexpNull, NotAList
+		}
+		head, err := env.Apply(fun, []Sexp{pair.Head})
+		if err != nil {
+			return SexpNull, err
+		}
+		heads = append(heads, head)
+		expr = pair.Tail
 	}
-
-	return list, nil
+	return MakeList(heads), nil
 }
 
 // O(n^2) for n total nodes in all lists. So this is
diff --git a/zygo/nesting.go b/zygo/nesting.go
new file mode 100644
index 0000000..95a9910
--- /dev/null
+++ b/zygo/nesting.go
@@ -0,0 +1,97 @@
+package zygo
+
+import (
+	"fmt"
+)
+
+// Values nested more deeply than this are not compared, encoded or converted,
+// and not printed in full: all these are recursive, and Go does not survive the
+// overflow of its stack.
+const maxValueDepth = 10000
+
+var errValueTooDeep = fmt.Errorf("value nested more than %d levels deep", maxValueDepth)
+var errValueCyclic = fmt.Errorf("value contains itself")
+
+// nestedSexps returns the values that x consists of.
+func nestedSexps(x Sexp) []Sexp {
+	switch e := x.(type) {
+	case *SexpArray:
+		return e.Val
+	case *SexpPair:
+		var parts []Sexp
+		for {
+			parts = append(parts, e.Head)
+			rest, isPair := e.Tail.(*SexpPair)
+			if !isPair {
+				return append(parts, e.Tail)
+			}
+			e = rest
+		}
+	case *SexpHash:
+		var parts []Sexp
+		for _, bucket := range e.Map {
+			for _, pair := range bucket {
+				parts = append(parts, pair.Head, pair.Tail)
+			}
+		}
+		return parts
+	case *SexpArraySelector:
+		return []Sexp{e.Container, e.Select}
+	case *SexpHashSelector:
+		return []Sexp{e.Container, e.Select}
+	}
+	return nil
+}
+
+// checkNesting returns an error if x contains itself, or is nested too deeply.
+func checkNesting(x Sexp) error {
+	type level struct {
+		x     Sexp
+		parts []Sexp
+		below int // the depth of the parts that have been looked at
+	}
+	const unfinished = -1
+	depths := make(map[Sexp]int)
+	var path []level
+
+	parts := nestedSexps(x)
+	if parts == nil {
+		return nil
+	}
+	path = append(path, level{x: x, parts: parts})
+	depths[x] = unfinished
+
+	for len(path) > 0 {
+		top := &path[len(path)-1]
+		if len(top.parts) == 0 {
+			depth := top.below + 1
+			if depth > maxValueDepth {
+				return errValueTooDeep
+			}
+			depths[top.x] = depth
+			path = path[:len(path)-1]
+			if len(path) > 0 && path[len(path)-1].below < depth {
+				path[len(path)-1].below = depth
+			}
+			continue
+		}
+		part := top.parts[0]
+		top.parts = top.parts[1:]
+		parts := nestedSexps(part)
+		if parts == nil {
+			continue
+		}
+		switch depth := depths[part]; {
+		case depth == unfinished:
+			return errValueCyclic
+		case depth > 0:
+			if top.below < depth {
+				top.below = depth
+			}
+		default:
+			depths[part] = unfinished
+			path = append(path, level{x: part, parts: parts})
+		}
+	}
+	return nil
+}
diff --git a/zygo/printstate.go b/zygo/printstate.go
index 16cec97..1d33933 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -13,6 +13,38 @@ type PrintState struct {
 	Indent    int
 	Seen      Seen
 	PrintJSON bool
+
+	within *printLevel // what the value being printed is part of
+}
+
+type printLevel struct {
+	x     Sexp
+	depth int
+	up    *printLevel
+}
+
+// Enter is called to print the parts of x with the PrintState that it returns. It
+// returns false if x is not to be printed, because it is part of itself or
+// nested too deeply.
+func (ps *PrintState) Enter(x Sexp) (*PrintState, bool) {
+	inner := NewPrintState()
+	if ps != nil {
+		*inner = *ps
+	}
+	level := &printLevel{x: x, depth: 1, up: inner.within}
+	if level.up != nil {
+		level.depth = level.up.depth + 1
+		if level.depth > maxValueDepth {
+			return nil, false
+		}
+		for up := level.up; up != nil; up = up.up {
+			if up.x == x {
+				return nil, false
+			}
+		}
+	}
+	inner.within = level
+	return inner, true
 }
 
 func (ps *PrintState) SetSeen(x interface{}, name string) {
@@ -48,6 +80,7 @@ func (ps *PrintState) AddIndent(addme int) *PrintState {
 		Indent:    ps.Indent + addme,
 		Seen:      ps.Seen,
 		PrintJSON: ps.PrintJSON,
+		within:    ps.within,
 	}
 }
 
diff --git a/zygo/system.go b/zygo/system.go
index 41fb6fa..02d07d7 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -73,6 +73,11 @@ func FlattenToWordsFunction(env *Zlisp, name string, args []Sexp) (Sexp, error)
 	if len(args) == 0 {
 		return SexpNull, WrongNargs
 	}
+	for i := range args {
+		if err := checkNesting(args[i]); err != nil {
+			return SexpNull, err
+		}
+	}
 	stringArgs, err := flattenToWordsHelper(args)
 	if err != nil {
 		return SexpNull, err
-- 
2.43.0


From 9e6b998f75c16dc4dee25ab74e30600fe2b848f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 58/64] fix: debug messages that are not shown are not made
 either

Every def printed the value that the name had before, and every hash that was
made was printed, to a text that nobody sees.
---
 zygo/environment.go |  2 +-
 zygo/generator.go   | 10 +++++-----
 zygo/gotypereg.go   |  2 +-
 zygo/scopes.go      |  4 ++--
 zygo/vm.go          |  2 +-
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index daaeb6c..7dfdc01 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -567,7 +567,7 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 // Calls nested more deeply than maxCallDepth, and expressions nested more deeply
 // than maxGenDepth, are errors: the interpreter is recursive, and Go does not
 // survive the overflow of its stack.
-const maxCallDepth = 50000
+const maxCallDepth = 30000
 const maxGenDepth = 10000
 
 var errCallsTooDeep = fmt.Errorf("calls nested more than %d levels deep", maxCallDepth)
diff --git a/zygo/generator.go b/zygo/generator.go
index 671a9b4..ec53bac 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -194,7 +194,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	if len(args) != 2 {
 		return fmt.Errorf("Wrong number of arguments to %s", opname)
 	}
-	Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
+	//Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
 	dup := true
 	var instr Instruction
 	switch args[0].(type) {
@@ -218,7 +218,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 				instr = RangeKeyBindInstr{lhs}
 			}
 		case "set":
-			Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
+			//Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
 			instr = UpdateInstr{lhs}
 		default:
 			panic(fmt.Errorf("unknown opname '%s'", opname))
@@ -1099,7 +1099,7 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 }
 
 func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
-	Q("GetLHS (opname=%s) called with arg '%s'", opname, arg.SexpString(nil))
+	//Q("GetLHS (opname=%s) called with arg '%s'", opname, arg.SexpString(nil))
 	var lhs *SexpSymbol
 	switch expr := arg.(type) {
 	case *SexpSymbol:
@@ -1130,7 +1130,7 @@ func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
 	}
 
 	if lhs.isDot {
-		Q("in GetLHS(), lhs.isDot == true, return lhs='%v'", lhs.SexpString(nil))
+		//Q("in GetLHS(), lhs.isDot == true, return lhs='%v'", lhs.SexpString(nil))
 		//return nil, fmt.Errorf("illegal to %s dot-symbol, attempted on '%s'", opname, lhs.name)
 	}
 
@@ -1660,7 +1660,7 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 		gen.AddInstruction(PushInstr{SexpMarker})
 	}
 	for i := range xs {
-		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
+		//Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
 		generate := gen.Generate
 		if n > 1 {
 			generate = gen.generateNonTail
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e4ab018..700bec5 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -293,7 +293,7 @@ type RegisteredType struct {
 }
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
-	Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
+	//Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
 	if hash.TypeName == "field" {
 		Q("in RegisteredType.TypeCheckRecord, TypeName == field, skipping.")
 		return nil
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 603c90b..65ee67c 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -192,7 +192,7 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 	}
 	cur, already := stack.elements[stack.tos].(*Scope).Map[sym.number]
 	if already {
-		Q("BindSymbol already sees symbol %v, currently bound to '%v'", sym.name, cur.SexpString(nil))
+		//Q("BindSymbol already sees symbol %v, currently bound to '%v'", sym.name, cur.SexpString(nil))
 
 		lhsTy := cur.Type()
 		rhsTy := expr.Type()
@@ -212,7 +212,7 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 		}
 
 		// both sides have type
-		Q("BindSymbol: both sides have type. rhs=%v, lhs=%v", rhsTy.SexpString(nil), lhsTy.SexpString(nil))
+		//Q("BindSymbol: both sides have type. rhs=%v, lhs=%v", rhsTy.SexpString(nil), lhsTy.SexpString(nil))
 
 		if lhsTy == rhsTy {
 			Q("BindSymbol: YES types match exactly. Good.")
diff --git a/zygo/vm.go b/zygo/vm.go
index 5121f38..991451f 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -180,7 +180,7 @@ func (p UpdateInstr) Execute(env *Zlisp) error {
 	env.pc++
 
 	if p.sym.isSigil {
-		Q("UpdateInstr: ignoring sigil symbol '%s'", p.sym.SexpString(nil))
+		//Q("UpdateInstr: ignoring sigil symbol '%s'", p.sym.SexpString(nil))
 		return nil
 	}
 	if p.sym.isDot {
-- 
2.43.0


From eaf9c00efd8ad22ba16659b8ddab5db8d2349849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 59/64] fix: eval and dump end on values that contain
 themselves, functions or packages; makeChan limits its size

---
 zygo/channels.go  |  3 +++
 zygo/functions.go |  6 ++++++
 zygo/jsonmsgp.go  | 31 +++++++++++++++++++++++++++++++
 zygo/nesting.go   | 16 ++++++++++++++--
 4 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/zygo/channels.go b/zygo/channels.go
index 747593b..f271f04 100644
--- a/zygo/channels.go
+++ b/zygo/channels.go
@@ -28,6 +28,9 @@ func MakeChanFunction(env *Zlisp, name string,
 	if len(args) == 1 {
 		switch t := args[0].(type) {
 		case *SexpInt:
+			if t.Val > maxArraySize {
+				return SexpNull, fmt.Errorf("channel of more than %d elements", maxArraySize)
+			}
 			size = int(t.Val)
 		default:
 			return SexpNull, errors.New(
diff --git a/zygo/functions.go b/zygo/functions.go
index 71eea71..151e7c9 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -700,6 +700,12 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	//P("EvalFunction() called, name = '%s'; args = %#v", name, (&SexpArray{Val: args}).SexpString(0))
 
+	for i := range args {
+		if err := checkNestingOf(args[i], nestedCode); err != nil {
+			return SexpNull, err
+		}
+	}
+
 	// Instead of LoadExpressions:
 	args = env.FilterArray(args, RemoveCommentsFilter)
 	args = env.FilterArray(args, RemoveEndsFilter)
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 789014b..8f068ec 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -699,10 +699,41 @@ func GoonDumpFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 	fmt.Printf("\n")
+	if holdsCode(args[0]) {
+		// there would be no end to it: functions hold on to the interpreter.
+		fmt.Printf("(%T) %s\n", args[0], args[0].SexpString(nil))
+		return SexpNull, nil
+	}
 	goon.Dump(args[0])
 	return SexpNull, nil
 }
 
+// holdsCode says if there is a script's function, a package or an unevaluated
+// argument in x.
+func holdsCode(x Sexp) bool {
+	seen := make(map[Sexp]bool)
+	todo := []Sexp{x}
+	for len(todo) > 0 {
+		x := todo[len(todo)-1]
+		todo = todo[:len(todo)-1]
+		switch e := x.(type) {
+		case *SexpFunction:
+			if !e.user {
+				return true
+			}
+		case *Stack, *SexpLazyArg, *SexpClosureEnv:
+			return true
+		case *SexpPointer:
+			todo = append(todo, e.Target)
+		}
+		if parts := nestedSexps(x); parts != nil && !seen[x] {
+			seen[x] = true
+			todo = append(todo, parts...)
+		}
+	}
+	return false
+}
+
 // try to convert to registered go structs if possible,
 // filling in the structure of target (should be a pointer).
 func SexpToGoStructs(
diff --git a/zygo/nesting.go b/zygo/nesting.go
index 95a9910..b576e3d 100644
--- a/zygo/nesting.go
+++ b/zygo/nesting.go
@@ -43,8 +43,20 @@ func nestedSexps(x Sexp) []Sexp {
 	return nil
 }
 
+// nestedCode is nestedSexps for expressions, where hashes stand for themselves.
+func nestedCode(x Sexp) []Sexp {
+	if _, isHash := x.(*SexpHash); isHash {
+		return nil
+	}
+	return nestedSexps(x)
+}
+
 // checkNesting returns an error if x contains itself, or is nested too deeply.
 func checkNesting(x Sexp) error {
+	return checkNestingOf(x, nestedSexps)
+}
+
+func checkNestingOf(x Sexp, partsOf func(Sexp) []Sexp) error {
 	type level struct {
 		x     Sexp
 		parts []Sexp
@@ -54,7 +66,7 @@ func checkNesting(x Sexp) error {
 	depths := make(map[Sexp]int)
 	var path []level
 
-	parts := nestedSexps(x)
+	parts := partsOf(x)
 	if parts == nil {
 		return nil
 	}
@@ -77,7 +89,7 @@ func checkNesting(x Sexp) error {
 		}
 		part := top.parts[0]
 		top.parts = top.parts[1:]
-		parts := nestedSexps(part)
+		parts := partsOf(part)
 		if parts == nil {
 			continue
 		}
-- 
2.43.0


From a4ea1563d2126f639ec9362a68ac0b78f38809c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:16 +0000
Subject: [PATCH 60/64] fix: mdef refuses a target that is a list instead of
 crashing on it

---
 zygo/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index ec53bac..a60e574 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -1157,9 +1157,10 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		case *SexpPair:
 			// gracefully handle the quoted symbols we get from the range macro
 			unquotedSymbol, isQuo := isQuotedSymbol(sym)
-			if isQuo {
-				syms[i] = unquotedSymbol.(*SexpSymbol)
+			if !isQuo {
+				return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 			}
+			syms[i] = unquotedSymbol.(*SexpSymbol)
 		default:
 			return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 		}
-- 
2.43.0


From b42f8599fe9de74ae4cce1610b5bf4479d91eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:16 +0000
Subject: [PATCH 61/64] fix: comparisons without an interpreter, source and
 dump end on values that contain themselves

---
 zygo/comparisons.go | 13 +++++++------
 zygo/jsonmsgp.go    |  2 +-
 zygo/source.go      |  3 +++
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 6f48d52..82c18af 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -259,13 +259,14 @@ func comparePointers(a *SexpPointer, bs Sexp) (int, error) {
 func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 
 	var err error
-	if env != nil {
-		if env.cmpDepth >= maxValueDepth {
-			return 0, errValueTooDeep
-		}
-		env.cmpDepth++
-		defer func() { env.cmpDepth-- }()
+	if env == nil {
+		env = &Zlisp{} // to count in
+	}
+	if env.cmpDepth >= maxValueDepth {
+		return 0, errValueTooDeep
 	}
+	env.cmpDepth++
+	defer func() { env.cmpDepth-- }()
 	if sel, isSel := a.(Selector); isSel {
 		a, err = sel.RHS(env)
 		if err != nil {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 8f068ec..00c7285 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -699,7 +699,7 @@ func GoonDumpFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 	fmt.Printf("\n")
-	if holdsCode(args[0]) {
+	if checkNesting(args[0]) != nil || holdsCode(args[0]) {
 		// there would be no end to it: functions hold on to the interpreter.
 		fmt.Printf("(%T) %s\n", args[0], args[0].SexpString(nil))
 		return SexpNull, nil
diff --git a/zygo/source.go b/zygo/source.go
index f1a9a2b..837dec2 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -104,6 +104,9 @@ func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 
 	for _, v := range args {
+		if err := checkNesting(v); err != nil {
+			return SexpNull, err
+		}
 		if err := env.sourceItem(v); err != nil {
 			return SexpNull, err
 		}
-- 
2.43.0


From a314e6524bfabfbf17b0e0313793628f9599c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:49 +0000
Subject: [PATCH 62/64] fix: fields with unusual names can be shown

---
 zygo/builders.go | 19 ++++++++++++++++---
 zygo/jsonmsgp.go |  6 ++----
 zygo/nesting.go  |  8 ++++++++
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index d0137b8..9744cb5 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -184,7 +184,7 @@ func (f *SexpField) FieldWidths() []int {
 	hash := (*SexpHash)(f)
 	wide := []int{}
 	for _, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.storedAt(key)
 		str := ""
 		if err == nil {
 			switch s := key.(type) {
@@ -209,7 +209,7 @@ func (f *SexpField) AlignString(pad []int) string {
 	str := " (" + hash.TypeName + " "
 	spc := " "
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.storedAt(key)
 		r := ""
 		if err == nil {
 			switch s := key.(type) {
@@ -244,12 +244,25 @@ func (f *SexpField) AlignString(pad []int) string {
 	return str + ")"
 }
 
+// storedAt finds the value stored with a key from KeyOrder, whatever the key would
+// mean if it was looked up.
+func (hash *SexpHash) storedAt(key Sexp) (Sexp, error) {
+	for _, bucket := range hash.Map {
+		for _, pair := range bucket {
+			if pair.Head == key {
+				return pair.Tail, nil
+			}
+		}
+	}
+	return hash.HashGet(hash.Env, key)
+}
+
 func (f *SexpField) SexpString(ps *PrintState) string {
 	hash := (*SexpHash)(f)
 	str := " (" + hash.TypeName + " "
 
 	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
+		val, err := hash.storedAt(key)
 		if err == nil {
 			switch s := key.(type) {
 			case *SexpStr:
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 00c7285..1e28458 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -699,7 +699,7 @@ func GoonDumpFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 	fmt.Printf("\n")
-	if checkNesting(args[0]) != nil || holdsCode(args[0]) {
+	if checkNestingOf(args[0], nestedTargets) != nil || holdsCode(args[0]) {
 		// there would be no end to it: functions hold on to the interpreter.
 		fmt.Printf("(%T) %s\n", args[0], args[0].SexpString(nil))
 		return SexpNull, nil
@@ -723,10 +723,8 @@ func holdsCode(x Sexp) bool {
 			}
 		case *Stack, *SexpLazyArg, *SexpClosureEnv:
 			return true
-		case *SexpPointer:
-			todo = append(todo, e.Target)
 		}
-		if parts := nestedSexps(x); parts != nil && !seen[x] {
+		if parts := nestedTargets(x); parts != nil && !seen[x] {
 			seen[x] = true
 			todo = append(todo, parts...)
 		}
diff --git a/zygo/nesting.go b/zygo/nesting.go
index b576e3d..2c3e211 100644
--- a/zygo/nesting.go
+++ b/zygo/nesting.go
@@ -51,6 +51,14 @@ func nestedCode(x Sexp) []Sexp {
 	return nestedSexps(x)
 }
 
+// nestedTargets is nestedSexps where pointers consist of what they point to.
+func nestedTargets(x Sexp) []Sexp {
+	if p, isPointer := x.(*SexpPointer); isPointer {
+		return []Sexp{p.Target}
+	}
+	return nestedSexps(x)
+}
+
 // checkNesting returns an error if x contains itself, or is nested too deeply.
 func checkNesting(x Sexp) error {
 	return checkNestingOf(x, nestedSexps)
-- 
2.43.0


From b28f53e5a73eddbe69c469c9e30a1b6c1c28ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 63/64] fix: closures copy their scopes once

---
 zygo/closing.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/zygo/closing.go b/zygo/closing.go
index 81dcf74..2c59951 100644
--- a/zygo/closing.go
+++ b/zygo/closing.go
@@ -8,26 +8,25 @@ type Closing struct {
 }
 
 func NewClosing(name string, env *Zlisp) *Closing {
+	stk := env.linearstack
 	// Be strict: only store scopes from the current lexical function outward
 	// to the current top. Caller scopes below that function are dynamic state,
 	// and there may be very many of them.
-	stk := env.linearstack
-	start := 0
-	for i := stk.tos; i > 0; i-- {
+	for i := stk.tos; i >= 0; i-- {
 		scop, ok := stk.elements[i].(*Scope)
 		if ok && scop.IsFunction {
-			start = i
+			if i > 0 {
+				trimmed := env.NewStack(stk.Size() - i)
+				for _, elem := range stk.elements[i : stk.tos+1] {
+					trimmed.Push(elem)
+				}
+				stk = trimmed
+			}
 			break
 		}
 	}
-	if start == 0 {
+	if stk == env.linearstack {
 		stk = stk.Clone()
-	} else {
-		trimmed := env.NewStack(stk.Size() - start)
-		for _, elem := range stk.elements[start : stk.tos+1] {
-			trimmed.Push(elem)
-		}
-		stk = trimmed
 	}
 
 	return &Closing{
-- 
2.43.0


From 9c6295a1f9d6f1681b60aa4208d618464bd78f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 64/64] fix: dump of an array, a hash or a type does not write
 out the whole interpreter

---
 zygo/functions.go |  2 +-
 zygo/jsonmsgp.go  | 15 +++++++++------
 zygo/nesting.go   |  6 +++---
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index 151e7c9..b9fcabf 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -701,7 +701,7 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	//P("EvalFunction() called, name = '%s'; args = %#v", name, (&SexpArray{Val: args}).SexpString(0))
 
 	for i := range args {
-		if err := checkNestingOf(args[i], nestedCode); err != nil {
+		if err := checkNestingOf(args[i], nestedCode, maxValueDepth); err != nil {
 			return SexpNull, err
 		}
 	}
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 1e28458..6bd537c 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -699,8 +699,9 @@ func GoonDumpFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 	fmt.Printf("\n")
-	if checkNestingOf(args[0], nestedTargets) != nil || holdsCode(args[0]) {
-		// there would be no end to it: functions hold on to the interpreter.
+	if checkNestingOf(args[0], nestedTargets, maxDumpDepth) != nil || holdsInterpreter(args[0]) {
+		// there would be no end to it, or nearly so: formatting what goon
+		// makes of deeply nested values takes time that is cubic in the depth.
 		fmt.Printf("(%T) %s\n", args[0], args[0].SexpString(nil))
 		return SexpNull, nil
 	}
@@ -708,9 +709,11 @@ func GoonDumpFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	return SexpNull, nil
 }
 
-// holdsCode says if there is a script's function, a package or an unevaluated
-// argument in x.
-func holdsCode(x Sexp) bool {
+const maxDumpDepth = 100
+
+// holdsInterpreter says if there is a script's function, an array, a hash, a type, a package or
+// an unevaluated argument in x.
+func holdsInterpreter(x Sexp) bool {
 	seen := make(map[Sexp]bool)
 	todo := []Sexp{x}
 	for len(todo) > 0 {
@@ -721,7 +724,7 @@ func holdsCode(x Sexp) bool {
 			if !e.user {
 				return true
 			}
-		case *Stack, *SexpLazyArg, *SexpClosureEnv:
+		case *SexpArray, *SexpHash, *RegisteredType, *Stack, *SexpLazyArg, *SexpClosureEnv:
 			return true
 		}
 		if parts := nestedTargets(x); parts != nil && !seen[x] {
diff --git a/zygo/nesting.go b/zygo/nesting.go
index 2c3e211..535ad35 100644
--- a/zygo/nesting.go
+++ b/zygo/nesting.go
@@ -61,10 +61,10 @@ func nestedTargets(x Sexp) []Sexp {
 
 // checkNesting returns an error if x contains itself, or is nested too deeply.
 func checkNesting(x Sexp) error {
-	return checkNestingOf(x, nestedSexps)
+	return checkNestingOf(x, nestedSexps, maxValueDepth)
 }
 
-func checkNestingOf(x Sexp, partsOf func(Sexp) []Sexp) error {
+func checkNestingOf(x Sexp, partsOf func(Sexp) []Sexp, maxDepth int) error {
 	type level struct {
 		x     Sexp
 		parts []Sexp
@@ -85,7 +85,7 @@ func checkNestingOf(x Sexp, partsOf func(Sexp) []Sexp) error {
 		top := &path[len(path)-1]
 		if len(top.parts) == 0 {
 			depth := top.below + 1
-			if depth > maxValueDepth {
+			if depth > maxDepth {
 				return errValueTooDeep
 			}
 			depths[top.x] = depth
-- 
2.43.0

