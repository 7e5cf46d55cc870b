package ai

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/load"
)

// FullName is a stable name of a callee.
func FullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// never returns to the caller
var noReturn = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "runtime.Goexit": true,
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true,
}

// results known to be non-nil
var nonNilResult = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "context.Background": true, "context.TODO": true,
	"github.com/goadesign/goa.NewErrorClass": true, "sync.(*Pool).Get": false,
	"context.WithCancel": true, "context.WithTimeout": true, "context.WithDeadline": true, "context.WithValue": true,
	"time.NewTimer": true, "time.NewTicker": true, "time.After": true, "bytes.NewBuffer": true, "bytes.NewReader": true,
	"bufio.NewReader": true, "bufio.NewWriter": true, "bufio.NewWriterSize": true, "bufio.NewReaderSize": true,
	"(context.Context).Done": true,
}

func (e *Engine) resultV(st *State, in ssa.Instruction, ctx int, sig *types.Signature, name string) *V {
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return e.Fresh(st, in, ctx, "ret:"+name, nonNilResult[name])
	}
	var vs []*V
	for i := 0; i < res.Len(); i++ {
		nn := nonNilResult[name] && !IsError(res.At(i).Type())
		vs = append(vs, e.Fresh(st, in, ctx, "ret:"+name+"#"+strconv.Itoa(i), nn))
	}
	return e.Tuple(vs...)
}

// OpaqueResult makes fresh results for a call (client use).
func (c *CallCtx) OpaqueResult(st *State) *V {
	return c.E.resultV(st, c.Instr, c.ctx, c.Sig(), c.Name)
}

// Sig is the call's signature.
func (c *CallCtx) Sig() *types.Signature { return c.Instr.Common().Signature() }

// Fresh makes a fresh symbol for this call.
func (c *CallCtx) Fresh(st *State, tag string, nonNil bool, args ...*V) *V {
	return c.E.Fresh(st, c.Instr, c.ctx, tag, nonNil, args...)
}

// InlineNow analyses a function value in the caller's state.
func (c *CallCtx) InlineNow(st *State, fnv *V, args []*V) []Outcome {
	return c.E.callValue(st, c.Instr, fnv, args, c.ctx)
}

func (e *Engine) onStack(st *State, fn *ssa.Function) int {
	n := 0
	for _, f := range st.Frames {
		if f.Fn == fn {
			n++
		}
	}
	return n
}

// callValue runs a function value; opaque functions return no value.
func (e *Engine) callValue(st *State, instr ssa.CallInstruction, fnv *V, args []*V, ctx int) []Outcome {
	if fnv.K != KFn || len(fnv.Fn.Blocks) == 0 || e.onStack(st, fnv.Fn) >= 1 || len(st.Frames) >= e.MaxDepth {
		return []Outcome{{st, nil}}
	}
	return e.run(fnv.Fn, args, fnv.Args, st, e.subctx(ctx, instr, false))
}

func (e *Engine) callWith(st *State, instr ssa.CallInstruction, fnv *V, args []*V, ctx int, isGo bool) []Outcome {
	e.Calls++
	common := instr.Common()
	c := &CallCtx{E: e, St: st, Instr: instr, Args: args, IsGo: isGo, ctx: ctx}
	var binds []*V
	if b, ok := common.Value.(*ssa.Builtin); ok && !common.IsInvoke() {
		return e.builtin(st, instr, b.Name(), args, ctx)
	}
	if common.IsInvoke() {
		recv := args[0]
		c.Method = common.Method
		if recv.K == KIface && recv.T != nil {
			if sel := e.P.SSA.MethodSets.MethodSet(recv.T).Lookup(common.Method.Pkg(), common.Method.Name()); sel != nil {
				if f := e.P.SSA.MethodValue(sel); f != nil {
					c.Callee = f
					args = append([]*V{recv.Args[0]}, args[1:]...)
					c.Args = args
				}
			}
		}
		if c.Callee == nil {
			c.Name = common.Method.FullName()
			e.derefAt(st, recv, instr)
		}
	} else if fnv.K == KFn {
		c.Callee = fnv.Fn
		binds = fnv.Args
	} else if cands := e.fieldCandidates(fnv); len(cands) > 0 {
		var outs []Outcome
		for i, f := range cands {
			s := st
			if i < len(cands)-1 {
				s = st.Clone()
			}
			outs = append(outs, e.callWith(s, instr, f, args, ctx, isGo)...)
		}
		return outs
	} else {
		c.FnV = fnv
		c.Name = "dynamic"
		if e.Hooks.Deref != nil {
			e.Hooks.Deref(e, st, fnv, instr)
		}
		if fnv.K == KNil {
			return nil // calling a nil function panics
		}
	}
	if c.Callee != nil {
		c.Name = FullName(c.Callee)
	}
	if noReturn[c.Name] {
		return nil
	}
	synthetic := c.Callee != nil && c.Callee.Synthetic != "" && len(c.Callee.Blocks) > 0 && c.Callee.Pkg == nil || c.Callee != nil && (strings.HasSuffix(c.Callee.Name(), "$bound") || strings.HasSuffix(c.Callee.Name(), "$thunk"))
	e.pin(c)
	if !synthetic {
		if e.Hooks.Call != nil {
			if outs, ok := e.Hooks.Call(c); ok {
				return outs
			}
		}
		if outs, ok := e.intrinsic(c); ok {
			return outs
		}
	}
	if c.Callee != nil && len(c.Callee.Blocks) > 0 && e.onStack(st, c.Callee) < 1 && len(st.Frames) < e.MaxDepth {
		if synthetic || c.Callee.Parent() != nil && e.onStack(st, c.Callee.Parent()) > 0 || e.Inline == nil || e.Inline(c.Callee) {
			st.Tr = &Trace{st.Tr, instr.Pos(), "call " + shortName(c.Callee)}
			return e.run(c.Callee, args, binds, st, e.subctx(ctx, instr, false))
		}
	}
	return e.opaque(c)
}

// pin keeps closures given to a call, and what they refer to, alive while it runs.
func (e *Engine) pin(c *CallCtx) {
	if _, ok := c.Instr.(*ssa.Call); !ok || len(c.St.Frames) == 0 {
		return
	}
	cargs := c.Instr.Common().Args
	off := len(c.Args) - len(cargs)
	for i, av := range cargs {
		if i+off < 0 || i+off >= len(c.Args) || !trackable(av) {
			continue
		}
		if _, has := c.St.Top().Regs[av]; !has {
			if a := c.Args[i+off]; a != nil && (a.K == KFn || a.K == KIface && a.Args[0].K == KFn) {
				c.St.Top().Regs[av] = a
			}
		}
	}
}

func shortName(f *ssa.Function) string {
	return f.RelString(nil)[strings.LastIndexByte(f.RelString(nil), '/')+1:]
}

func isLogName(n string) bool {
	return strings.Contains(n, "rankdb/log.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "fmt.") ||
		strings.Contains(n, "goadesign/goa.Log")
}

func (e *Engine) opaque(c *CallCtx) []Outcome {
	st := c.St
	sig := c.Sig()
	var outs []Outcome
	if !isLogName(c.Name) {
		var mod map[FieldRef]bool
		known := false
		if c.Callee != nil && len(c.Callee.Blocks) > 0 && e.Mods != nil {
			mod, known = e.Mods.Of(c.Callee), true
		}
		for i, a := range c.Args {
			if known {
				if i < len(c.Callee.Params) {
					e.havocMod(st, a, c.Callee.Params[i].Type(), mod, c)
				}
				continue
			}
			e.havoc(st, a, c)
		}
	}
	for _, a := range c.Args {
		delete(st.Held, e.Expr("wg", a))
		delete(st.Held, e.Expr("wg?", a))
	}
	// closures of the repository handed to unknown code: run zero or one time here.
	states := []*State{st}
	if !isLogName(c.Name) {
		for _, a := range c.Args {
			f := a
			if f.K == KIface {
				f = f.Args[0]
			}
			if f.K != KFn || len(f.Fn.Blocks) == 0 || f.Fn.Parent() == nil && !strings.HasSuffix(f.Fn.Name(), "$bound") {
				continue
			}
			var nxt []*State
			for _, s := range states {
				nxt = append(nxt, s.Clone())
				var fargs []*V
				for i := range f.Fn.Params {
					fargs = append(fargs, c.E.Fresh(s, c.Instr, c.ctx, "cbarg"+strconv.Itoa(i), false))
				}
				for _, o := range e.callValue(s, c.Instr, f, fargs, c.ctx) {
					if e.Hooks.Callback != nil {
						e.Hooks.Callback(c, f.Fn, o)
					}
					nxt = append(nxt, o.St)
				}
			}
			states = e.dedupe(nxt)
		}
	}
	for _, s := range states {
		r := e.resultV(s, c.Instr, c.ctx, sig, c.Name)
		if len(c.Args) == 1 {
			switch c.Name {
			case "(context.Context).Done":
				r = e.Expr("ctxdone", c.Args[0])
			case "(context.Context).Err":
				if s.Facts[e.Expr("cancelled", c.Args[0])] == True {
					r = e.Fresh(s, c.Instr, c.ctx, "ctxerr", true)
				}
			}
		}
		outs = append(outs, Outcome{s, r})
	}
	if e.Hooks.Opaque != nil {
		outs = e.Hooks.Opaque(c, outs)
	}
	return outs
}

// havoc forgets the content of objects handed to unknown code.
func (e *Engine) havoc(st *State, a *V, c *CallCtx) {
	if a == nil {
		return
	}
	if a.K == KIface {
		a = a.Args[0]
	}
	switch a.K {
	case KAlloc, KField, KIndex, KGlobal, KSym, KDeref, KParam, KExpr:
	default:
		return
	}
	delete(st.Maps, a)
	var ks []*V
	for k, v := range st.Mem {
		if hasPrefix(k, a) && !v.hasFn && k.S != "·havoc" {
			ks = append(ks, k)
		}
	}
	sortVs(ks)
	root := a
	for root.K == KField || root.K == KIndex {
		root = root.Args[0]
	}
	if root.K == KAlloc && !strings.HasPrefix(root.S, "map") && !strings.HasPrefix(root.S, "chan") {
		scalar := false
		if a.T != nil {
			if p, ok := a.T.Underlying().(*types.Pointer); ok {
				scalar = structOf(p.Elem()) == nil
			}
		}
		if scalar {
			ks = addV(ks, a)
		} else if a.K == KAlloc || a.K == KField {
			st.Mem[e.havocMark(a)] = e.Bool(true)
		}
	}
	for _, k := range ks {
		v := e.Fresh(st, c.Instr, c.ctx, "havoc", false, k)
		st.Mem[k] = v
	}
}

// havocMod forgets what a known callee may write through one argument.
func (e *Engine) havocMod(st *State, a *V, t types.Type, mod map[FieldRef]bool, c *CallCtx) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok || len(mod) == 0 || a.K == KNil {
		return
	}
	s := structOf(p.Elem())
	if s == nil {
		if mod[FieldRef{p.Elem().String(), "*"}] {
			v := e.Fresh(st, c.Instr, c.ctx, "havoc", false, a)
			st.Mem[a] = v
		}
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if mod[FieldRef{p.Elem().String(), f.Name()}] {
			k := e.Field(a, f.Name())
			if v, ok := st.Mem[k]; ok && v.hasFn {
				continue
			}
			v := e.Fresh(st, c.Instr, c.ctx, "havoc", false, k)
			st.Mem[k] = v
		}
	}
}

func (e *Engine) builtin(st *State, instr ssa.CallInstruction, name string, args []*V, ctx int) []Outcome {
	one := func(v *V) []Outcome { return []Outcome{{st, v}} }
	var t types.Type
	if v, ok := instr.(ssa.Value); ok {
		t = v.Type()
	}
	if e.Hooks.Builtin != nil && (name == "append" || name == "copy") {
		e.Hooks.Builtin(e, st, name, instr)
	}
	switch name {
	case "len", "cap":
		if len(instr.Common().Args) == 1 {
			e.mapRead(st, args[0], instr.Common().Args[0].Type(), instr)
		}
		x := args[0]
		if x.K == KNil || st.Facts[x] == IsNil {
			return one(e.Const(constant.MakeInt64(0)))
		}
		if x.C != nil && x.C.Kind() == constant.String {
			return one(e.Const(constant.MakeInt64(int64(len(constant.StringVal(x.C))))))
		}
		if _, isMap := instr.Common().Args[0].Type().Underlying().(*types.Map); isMap && name == "len" {
			if m, ok := st.Maps[x]; ok && len(m) == 0 && st.Facts[x] != NonEmpty {
				return one(e.Const(constant.MakeInt64(0)))
			}
			r := e.Fresh(st, instr, ctx, "maplen", false)
			if st.Facts[x] == NonEmpty {
				// known positive
				st.Facts[e.Expr("==", r, e.Const(constant.MakeInt64(0)))] = False
				st.Facts[e.Expr("<", e.Const(constant.MakeInt64(0)), r)] = True
			}
			return one(r)
		}
		if _, isChan := instr.Common().Args[0].Type().Underlying().(*types.Chan); isChan {
			return one(e.Fresh(st, instr, ctx, "chanlen", false))
		}
		return one(e.Expr(name, x))
	case "append":
		var es []*V
		known := true
		ne := false
		for i, x := range args {
			if st.Facts[x] == NonEmpty {
				ne = true
			}
			if s, ok := st.Seq[x]; ok {
				for _, v := range s {
					es = addV(es, v)
				}
			} else if !(x.K == KNil || i == 0 && strings.HasPrefix(x.S, "make")) {
				known = false
			}
		}
		v := e.Fresh(st, instr, ctx, "append", false)
		// rename may have aged the elements
		if known && len(es) > 0 && len(es) <= 6 {
			es = nil
			for _, x := range args {
				x := x
				for _, y := range st.Seq[x] {
					es = addV(es, y)
				}
			}
			if len(es) > 0 {
				st.Seq[v] = es
			}
		}
		if ne {
			st.Facts[v] = NonEmpty
		}
		return one(v)
	case "copy":
		delete(st.Seq, args[0])
		return one(e.Fresh(st, instr, ctx, "copied", false))
	case "delete":
		if e.Hooks.MapUpd != nil {
			e.Hooks.MapUpd(e, st, args[0], args[1], nil, instr)
		}
		if m, ok := st.Maps[args[0]]; ok {
			if !isOldish(args[1]) {
				delete(m, args[1])
			}
		}
		delete(st.Facts, args[0])
		return one(nil)
	case "close":
		e.told(st, args[0], 1)
		return one(nil)
	case "print", "println", "clear":
		return one(nil)
	case "panic":
		return nil
	case "recover":
		return one(e.Nil())
	case "ssa:wrapnilchk":
		return one(args[0])
	case "min", "max":
		return one(e.Expr(name, args...))
	}
	if t == nil {
		return one(nil)
	}
	return one(e.Fresh(st, instr, ctx, "builtin:"+name, false))
}

// ---- intrinsics

var lockOps = map[string]string{
	"(*sync.RWMutex).Lock": "Lock", "(*sync.RWMutex).Unlock": "Unlock", "(*sync.RWMutex).RLock": "RLock", "(*sync.RWMutex).RUnlock": "RUnlock",
	"(*sync.Mutex).Lock": "Lock", "(*sync.Mutex).Unlock": "Unlock",
	"(sync.Locker).Lock": "Lock", "(sync.Locker).Unlock": "Unlock",
}

func (e *Engine) inh(k *V) *V { return e.in.mk(KExpr, "inherited", false, nil, nil, k) }

// IsInherited reports whether a held entry belongs to the spawning goroutine.
func IsInherited(k *V) bool { return k.K == KExpr && k.S == "inherited" }

func (e *Engine) lockOp(c *CallCtx, op string) []Outcome {
	st := c.St
	k := c.Args[0]
	if k.K == KIface {
		k = k.Args[0]
	}
	e.deref(st, k)
	ev := &LockEvent{E: e, St: st, Lock: k, Op: op, Instr: c.Instr, At: c.Instr}
	h, held := st.Held[k]
	inhH, inherited := st.Held[e.inh(k)]
	old := isOldish(k)
	site := e.P.Pos(c.Instr.Pos())
	ev.Was = h
	if !held && inherited {
		ev.Was = inhH
	}
	switch op {
	case "Lock", "RLock":
		if held && !old {
			switch {
			case op == "Lock" && h.W, op == "RLock" && h.W:
				ev.Problem = "relock"
			case op == "Lock":
				ev.Problem = "upgrade"
			default:
				ev.Problem = "recursive-rlock"
			}
		}
		if inherited && !old {
			if e.inGo > 0 && (op == "Lock" || inhH.W) {
				p := st.Spawn[k]
				if op == "Lock" {
					p.W = true
				} else {
					p.N = 1
				}
				p.Pos = c.Instr.Pos()
				p.Site = site
				st.Spawn[k] = p
			}
		}
		if !held || h.Pos == token.NoPos {
			h.Pos, h.Site = c.Instr.Pos(), site
		}
		if op == "Lock" {
			h.W = true
		} else if !old || h.N == 0 {
			h.N++
			if h.N > 3 {
				h.N = 3
			}
		}
		st.Held[k] = h
		st.Tr = &Trace{st.Tr, c.Instr.Pos(), op + " " + k.String()}
	case "Unlock", "RUnlock":
		st.Tr = &Trace{st.Tr, c.Instr.Pos(), op + " " + k.String()}
		kk := k
		if !held && inherited {
			h, held, kk = inhH, true, e.inh(k)
		}
		bad := !held || op == "Unlock" && !h.W || op == "RUnlock" && h.N == 0
		if bad && !old {
			ev.Problem = "unlock-not-held"
		}
		if held {
			if op == "Unlock" {
				h.W = false
			} else if h.N > 0 {
				h.N--
			}
			if !h.W && h.N == 0 {
				delete(st.Held, kk)
				if kk == k {
					delete(st.Spawn, k)
				}
			} else {
				st.Held[kk] = h
			}
		}
	}
	if e.Hooks.Lock != nil {
		e.Hooks.Lock(ev)
	}
	return []Outcome{{st, nil}}
}

// callback-running externals: name -> (argument index of the callback, min, max runs, err passthrough)
type cbSpec struct {
	arg      int
	min, max int
	passErr  bool
	failOwn  bool // may also fail by itself
}

var callbacks = map[string]cbSpec{
	"(*sync.Once).Do":                          {1, 0, 1, false, false},
	"(*sync.Map).Range":                        {1, 0, 2, false, false},
	"(*go.etcd.io/bbolt.DB).Update":            {1, 1, 1, true, true},
	"(*go.etcd.io/bbolt.DB).View":              {1, 1, 1, true, true},
	"(*go.etcd.io/bbolt.DB).Batch":             {1, 1, 2, true, true},
	"(*github.com/boltdb/bolt.DB).Update":      {1, 1, 1, true, true},
	"(*github.com/boltdb/bolt.DB).View":        {1, 1, 1, true, true},
	"(*github.com/boltdb/bolt.DB).Batch":       {1, 1, 2, true, true},
	"(*github.com/dgraph-io/badger.DB).Update": {1, 1, 1, true, true},
	"(*github.com/dgraph-io/badger.DB).View":   {1, 1, 1, true, true},
	"github.com/cenkalti/backoff.Retry":        {0, 1, 2, true, false},
	"github.com/cenkalti/backoff.RetryNotify":  {0, 1, 2, true, false},
	"sort.Slice":       {1, 0, 1, false, false},
	"sort.SliceStable": {1, 0, 1, false, false},
	"sort.Search":      {1, 0, 1, false, false},
}

func (e *Engine) intrinsic(c *CallCtx) ([]Outcome, bool) {
	if op, ok := lockOps[c.Name]; ok {
		return e.lockOp(c, op), true
	}
	switch c.Name {
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		e.waitGroup(c)
	}
	switch c.Name {
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
		return []Outcome{{c.St, nil}}, true
	case "(*sync.WaitGroup).Wait":
		e.waitPoint(c.St, c.Instr)
		return []Outcome{{c.St, nil}}, true
	}
	if sp, ok := callbacks[c.Name]; ok && sp.arg < len(c.Args) {
		f := c.Args[sp.arg]
		if f.K == KIface {
			f = f.Args[0]
		}
		if f.K != KFn || len(f.Fn.Blocks) == 0 {
			return nil, false
		}
		hasRes := c.Sig().Results().Len() == 1 && IsError(c.Sig().Results().At(0).Type())
		var outs []Outcome
		type sv struct {
			s *State
			v *V
		}
		cur := []sv{{c.St, nil}}
		fin := func(x sv) {
			r := x.v
			if hasRes {
				if r == nil || !sp.passErr {
					r = c.Fresh(x.s, "cberr", false)
				}
			} else {
				r = nil
			}
			outs = append(outs, Outcome{x.s, r})
		}
		if sp.failOwn {
			s := c.St.Clone()
			outs = append(outs, e.hookOpaque(c, s)...)
		}
		if sp.min == 0 {
			fin(sv{c.St.Clone(), nil})
		}
		for n := 1; n <= sp.max; n++ {
			var nxt []sv
			for _, x := range cur {
				var fargs []*V
				for i := range f.Fn.Params {
					fargs = append(fargs, e.Fresh(x.s, c.Instr, c.ctx, "cbarg"+strconv.Itoa(i), false))
				}
				if n > 1 && e.Hooks.Again != nil {
					e.Hooks.Again(c, x.s)
				}
				for _, o := range e.callValue(x.s, c.Instr, f, fargs, c.ctx) {
					nxt = append(nxt, sv{o.St, o.Ret})
				}
			}
			cur = nil
			for _, x := range nxt {
				s := x.s
				if n < sp.max {
					s = x.s.Clone()
				}
				if n >= sp.min {
					fin(sv{s, x.v})
				}
				// repeated only after an error, or until false is returned
				if x.v != nil && (sp.passErr && e.NilFact(x.s, x.v) == IsNil || !sp.passErr && e.Truth(x.s, x.v) == False) {
					continue
				}
				cur = append(cur, x)
			}
		}
		return outs, true
	}
	return nil, false
}

// hookOpaque produces the "failed by itself" outcome of a callback runner through the client's
// Opaque hook; without hook it is a non-nil error.
func (e *Engine) hookOpaque(c *CallCtx, s *State) []Outcome {
	r := c.Fresh(s, "ret:"+c.Name, false)
	c2 := *c
	c2.St = s
	outs := []Outcome{{s, r}}
	if e.Hooks.Opaque != nil {
		outs = e.Hooks.Opaque(&c2, outs)
	}
	var res []Outcome
	for _, o := range outs {
		if o.Ret != nil && e.NilFact(o.St, o.Ret) != IsNil {
			if e.NilFact(o.St, o.Ret) == Unknown {
				o.St.Facts[o.Ret] = NotNil
			}
			res = append(res, o)
		}
	}
	return res
}

// spawn analyses a goroutine synchronously at its start.
func (e *Engine) spawn(st *State, instr *ssa.Go, fnv *V, args []*V, ctx int) []*State {
	orig := st.Clone()
	held := st.Held
	st.Held = map[*V]Held{}
	wg0 := map[*V]int{}
	for k, h := range held {
		if IsWaitGroup(k) {
			wg0[k] = h.N
		}
		if IsInherited(k) || IsWaitGroup(k) {
			st.Held[k] = h
		} else {
			st.Held[e.inh(k)] = h
		}
	}
	for k, v := range st.Mem {
		if (v.K == KConst || v.C != nil) && e.volatile(k) {
			st.Mem[k] = e.in.mk(KSym, "volatile:"+strconv.Itoa(k.ID), false, nil, nil)
		}
		if m, ok := st.Maps[v]; ok && len(m) == 0 && k.K == KField && st.Facts[v] != NonEmpty {
			delete(st.Maps, v) // a map in a field: others may fill it
		}
	}
	base := e.goBase
	e.goBase = len(st.Frames)
	e.inGo++
	var outs []Outcome
	outs = e.callWith(st, instr, fnv, args, ctx, true)
	e.inGo--
	e.goBase = base
	var res []*State
	e.goDone(st, instr, wg0, outs)
	for _, o := range outs {
		s := o.St
		nh := map[*V]Held{}
		for k, h := range s.Held {
			if IsInherited(k) {
				if _, ok := orig.Held[k]; ok {
					nh[k] = h // inherited from further up
				} else {
					nh[k.Args[0]] = h
				}
				continue
			}
		}
		for k, h := range s.Held {
			if !IsInherited(k) {
				if p, ok := nh[k]; ok {
					h.W = h.W || p.W
					h.N += p.N
				}
				nh[k] = h
			}
		}
		s.Held = nh
		res = append(res, s)
	}
	if len(res) == 0 {
		return []*State{orig}
	}
	return e.dedupe(res)
}

// waitPoint: the current goroutine waits for others here.
func (e *Engine) waitPoint(st *State, instr ssa.Instruction) {
	for k, p := range st.Spawn {
		h, ok := st.Held[k]
		if ok && (p.W || h.W) && e.Hooks.Lock != nil {
			ci, _ := instr.(ssa.CallInstruction)
			e.Hooks.Lock(&LockEvent{E: e, St: st, Lock: k, Op: "wait", Instr: ci, At: instr, Problem: "wait-holding"})
		}
	}
}

// ---- tokens and wait groups

// IsBucket reports whether t is the token bucket type.
func IsBucket(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Bucket" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == load.ModPath
}

// IsToken reports whether a held entry is a token of a bucket.
func IsToken(k *V) bool {
	if IsInherited(k) {
		k = k.Args[0]
	}
	return k.K == KExpr && k.S == "token"
}

// IsWaitGroup reports whether a held entry is the balance of a wait group.
func IsWaitGroup(k *V) bool { return k.K == KExpr && (k.S == "wg" || k.S == "wg?" || IsPending(k)) }

// IsPending reports whether a held entry says that goroutines which release a local wait group have
// been started and nobody has waited for them: "wgp" for the group, "wgw" while a helper goroutine
// has waited but not told, "wgc" when it told by closing (X=1) or sending on (X=2) a channel.
func IsPending(k *V) bool { return k.K == KExpr && (k.S == "wgp" || k.S == "wgw" || k.S == "wgc") }

// told: the current goroutine closes or sends on ch.
func (e *Engine) told(st *State, ch *V, how int) {
	for k, h := range st.Held {
		if k.K == KExpr && k.S == "wgw" && h.X == e.inGo {
			delete(st.Held, k)
			h.X = how
			st.Held[e.Expr("wgc", ch)] = h
		}
	}
}

// heard: a receive on ch returned; closed tells whether that was because of the close.
func (e *Engine) heard(st *State, ch *V, closed bool) {
	k := e.Expr("wgc", ch)
	if h, ok := st.Held[k]; ok && (closed || h.X == 2) {
		delete(st.Held, k)
	}
}

func noData(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := c.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (e *Engine) token(st *State, ch *V, instr ssa.Instruction, take bool) {
	k := e.Expr("token", ch)
	ev := &LockEvent{E: e, St: st, Lock: k, Op: "take", At: instr}
	h, held := st.Held[k]
	if take {
		if h.N > 0 && !isOldish(k) {
			ev.Problem = "token-retake"
		}
		h.N++
		if h.N > 3 {
			h.N = 3
		}
		if h.Pos == token.NoPos {
			h.Pos, h.Site = instr.Pos(), e.P.Pos(instr.Pos())
		}
		st.Held[k] = h
		st.Tr = &Trace{st.Tr, instr.Pos(), "take token of " + ch.String()}
	} else {
		ev.Op = "put"
		kk := k
		if !held {
			kk = e.inh(k)
			h, held = st.Held[kk]
		}
		if !held {
			ev.Problem = "token-not-held"
		} else {
			h.N--
			if h.N <= 0 {
				delete(st.Held, kk)
			} else {
				st.Held[kk] = h
			}
		}
		st.Tr = &Trace{st.Tr, instr.Pos(), "return token to " + ch.String()}
	}
	if e.Hooks.Lock != nil {
		e.Hooks.Lock(ev)
	}
}

// Bits of the extra word of a wait group entry with a non-constant add.
const (
	wgDone  = 1 // some Done was seen
	wgSpawn = 2 // a goroutine without Done was started
	wgBroke = 4 // the loop over the added items was left early
)

// waitGroup tracks the counter of a wait group: "wg" is the balance of constant adds, "wg?" stands
// for a group with a non-constant add; its N counts the Done of the current loop iteration.
func (e *Engine) waitGroup(c *CallCtx) {
	st := c.St
	k, u := e.Expr("wg", c.Args[0]), e.Expr("wg?", c.Args[0])
	h := st.Held[k]
	uh, unk := st.Held[u]
	switch c.Name {
	case "(*sync.WaitGroup).Add":
		n, ok := constInt(c.Args[1])
		if !ok {
			if !unk {
				st.Held[u] = Held{N: 1, X: e.inGo << 8, Pos: c.Instr.Pos(), Site: e.P.Pos(c.Instr.Pos()), At: c.Instr}
			}
			delete(st.Held, k)
			return
		}
		h.N += int(n)
		if h.N > 4 {
			h.N = 4
		}
		h.Pos, h.Site = c.Instr.Pos(), e.P.Pos(c.Instr.Pos())
	case "(*sync.WaitGroup).Done":
		st.Tr = &Trace{st.Tr, c.Instr.Pos(), "Done"}
		if unk && e.inGo == uh.X>>8 {
			uh.N++
			if uh.N > 3 {
				uh.N = 3
			}
			uh.X |= wgDone
			st.Held[u] = uh
			return
		}
		h.N--
		if h.N < -3 {
			h.N = -3
		}
		if h.Pos == token.NoPos {
			h.Pos, h.Site = c.Instr.Pos(), e.P.Pos(c.Instr.Pos())
		}
	case "(*sync.WaitGroup).Wait":
		ev := &LockEvent{E: e, St: st, Lock: k, Op: "wg", Instr: c.Instr, At: c.Instr}
		switch {
		case h.N > 0 && !unk:
			ev.Problem = "wg-never-done"
		case unk && uh.X&wgBroke != 0:
			ev.Problem = "wg-loop-left-early"
		case unk && uh.X&wgSpawn != 0 && uh.X&wgDone == 0:
			ev.Problem = "wg-never-done"
		}
		delete(st.Held, k)
		delete(st.Held, u)
		p := e.Expr("wgp", c.Args[0])
		if ph, ok := st.Held[p]; ok {
			delete(st.Held, p)
			if ph.X < e.inGo {
				ph.X = e.inGo
				st.Held[e.Expr("wgw", c.Args[0])] = ph
			}
		}
		if e.Hooks.Lock != nil {
			e.Hooks.Lock(ev)
		}
		return
	}
	if h.N == 0 {
		delete(st.Held, k)
	} else {
		st.Held[k] = h
	}
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	outer  bool
}

func (e *Engine) loopsOf(fn *ssa.Function) []*loopInfo {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	byH := map[*ssa.BasicBlock]*loopInfo{}
	var ls []*loopInfo
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byH[s]
			if l == nil {
				l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				byH[s] = l
				ls = append(ls, l)
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	e.loops[fn] = ls
	return ls
}

// wgEdge checks the balance of wait groups along an edge of a loop.
func (e *Engine) wgEdge(s *State, pred, b *ssa.BasicBlock) {
	for u, h := range s.Held {
		if !(u.K == KExpr && u.S == "wg?") || h.At == nil || h.At.Parent() != b.Parent() {
			continue
		}
		var in *loopInfo // outermost loop around pred that does not contain the add
		for _, l := range e.loopsOf(b.Parent()) {
			if l.body[pred] && !l.body[h.At.Block()] && (in == nil || len(l.body) > len(in.body)) {
				in = l
			}
		}
		if in == nil {
			continue
		}
		if b == in.header {
			k := wgIterKey{in.header, u}
			if e.wgIter[k] == nil {
				e.wgIter[k] = map[int]bool{}
			}
			e.wgIter[k][h.N-1] = true
			if len(e.wgIter[k]) > 1 && e.Hooks.Lock != nil {
				e.Hooks.Lock(&LockEvent{E: e, St: s, Lock: u, Op: "wg", At: b.Instrs[0], Problem: "wg-iteration-unbalanced"})
			}
			h.N = 1
			s.Held[u] = h
			continue
		}
		if !in.body[b] && pred != in.header && h.X&wgDone != 0 && strings.HasPrefix(in.header.Comment, "range") {
			h.X |= wgBroke
			s.Held[u] = h
		}
	}
}

type wgIterKey struct {
	b *ssa.BasicBlock
	u *V
}

// goDone compares what the outcomes of one goroutine did to wait groups.
func (e *Engine) goDone(st *State, instr *ssa.Go, wg0 map[*V]int, outs []Outcome) {
	if len(outs) == 0 {
		return
	}
	keys := map[*V]bool{}
	for k := range wg0 {
		if k.S == "wg" {
			keys[k] = true
		}
	}
	defer func() {
		for _, o := range outs {
			for k, h := range o.St.Held {
				if k.K == KExpr && k.S == "wgw" && h.X > e.inGo {
					h.X = e.inGo + 1000 // the helper ended without telling
					o.St.Held[k] = h
				}
			}
		}
	}()
	unks := map[*V]bool{}
	for _, o := range outs {
		for k := range o.St.Held {
			if IsWaitGroup(k) && !IsPending(k) {
				if k.S == "wg" {
					keys[k] = true
				} else {
					keys[e.Expr("wg", k.Args[0])] = true
					unks[k.Args[0]] = true
				}
			}
		}
	}
	for k := range keys {
		lo, hi := 1<<30, -(1 << 30)
		var at *State
		for _, o := range outs {
			d := o.St.Held[k].N - wg0[k]
			if d < lo {
				lo = d
			}
			if d > hi {
				hi = d
				at = o.St
			}
		}
		if lo != hi && lo < 0 && e.Hooks.Lock != nil {
			e.Hooks.Lock(&LockEvent{E: e, St: at, Lock: k, Op: "wg", Instr: instr, At: instr, Problem: "wg-unbalanced"})
		}
		if e.Hooks.Lock != nil && hi < 0 {
			e.Hooks.Lock(&LockEvent{E: e, St: at, Lock: k, Op: "wg-go", Instr: instr, At: instr})
		}
		if hi < 0 && k.Args[0].K == KAlloc {
			p := e.Expr("wgp", k.Args[0])
			for _, o := range outs {
				if _, ok := o.St.Held[p]; !ok {
					o.St.Held[p] = Held{N: 1, X: e.inGo, Pos: instr.Pos(), Site: e.P.Pos(instr.Pos()), At: instr}
				}
			}
		}
		if unks[k.Args[0]] {
			u := e.Expr("wg?", k.Args[0])
			for _, o := range outs {
				h, ok := o.St.Held[u]
				if !ok {
					continue
				}
				if hi < 0 {
					h.N -= hi
					if h.N > 3 {
						h.N = 3
					}
					h.X |= wgDone
				} else {
					h.X |= wgSpawn
				}
				o.St.Held[u] = h
				delete(o.St.Held, k)
			}
		}
	}
}
