package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/load"
)

// CallCtx describes one abstract call.
type CallCtx struct {
	E      *Engine
	St     *State
	Instr  ssa.CallInstruction
	Callee *ssa.Function // resolved callee, nil for unresolved calls
	Method *types.Func   // interface method for unresolved invokes
	FnV    *V            // function value for unresolved dynamic calls
	Args   []*V          // receiver first
	Name   string        // full name, e.g. (*sync.RWMutex).Lock
	IsGo   bool
	ctx    int
}

// Pos is the call position.
func (c *CallCtx) Pos() token.Pos { return c.Instr.Pos() }

// Outcome is one way a call can end.
type Outcome struct {
	St  *State
	Ret *V
}

// LockEvent describes an acquisition or release.
type LockEvent struct {
	E       *Engine
	St      *State
	Lock    *V
	Op      string // Lock, RLock, Unlock, RUnlock
	Instr   ssa.CallInstruction
	At      ssa.Instruction
	Was     Held   // the entry before the operation
	Problem string // "double-unlock", "unlock-not-held", "relock", "recursive-rlock", "upgrade", "wait-holding"
}

// Hooks are the client's callbacks.
type Hooks struct {
	// Call may handle a call completely.
	Call func(c *CallCtx) ([]Outcome, bool)
	// Opaque may replace the outcomes of a call that is not inlined.
	Opaque func(c *CallCtx, outs []Outcome) []Outcome
	// Again is called before unknown code runs a closure another time.
	Again func(c *CallCtx, st *State)
	// Callback sees each outcome of a closure that unknown code was given and may run.
	Callback func(c *CallCtx, fn *ssa.Function, o Outcome)
	// Deref is called before a pointer or interface value is used to reach what it refers to.
	Deref func(e *Engine, st *State, ptr *V, instr ssa.Instruction)
	// Index is called for each element of a slice or array whose address is taken.
	Index func(e *Engine, st *State, x, i *V, in *ssa.IndexAddr)
	Load  func(e *Engine, st *State, ptr *V, instr ssa.Instruction)
	Store func(e *Engine, st *State, ptr, val *V, instr ssa.Instruction)
	// MapUpd is called for updates and deletes (val nil), MapRead for lookups, iteration and len.
	MapUpd  func(e *Engine, st *State, m, k, val *V, instr ssa.Instruction)
	MapRead func(e *Engine, st *State, m *V, instr ssa.Instruction)
	Send    func(e *Engine, st *State, ch, val *V, instr ssa.Instruction)
	// Builtin is called before append and copy.
	Builtin func(e *Engine, st *State, name string, instr ssa.CallInstruction)
	// Recv is called before data is received.
	Recv func(e *Engine, st *State, ch *V, instr ssa.Instruction)
	Lock func(ev *LockEvent)
	// Branch is called on each edge a path takes out of a conditional.
	Branch func(e *Engine, st *State, in *ssa.If, taken bool)
	// Prune tells that nothing further on this path matters.
	Prune func(st *State) bool
	// Return is called at each return statement of the entry point.
	Return func(e *Engine, st *State, ret *V)
	// Leave is called when an inlined function returns (frame already popped).
	Leave func(e *Engine, fn *ssa.Function, st *State, ret *V)
}

// Engine runs the analysis.
type Engine struct {
	P     *load.Program
	in    *interner
	Hooks Hooks
	// KnownNonNil lists values the client assumes to be non-nil.
	KnownNonNil map[*V]bool
	// Inline decides whether the body of fn is analysed in context.
	Inline func(fn *ssa.Function) bool
	// Observe, when set, is called with every instruction executed (statistics).
	MaxSteps       int
	Steps          int
	Truncated      string
	Stop           func() string // asked now and then: a reason to stop here
	DropDerefFacts bool
	GoSeparate     bool
	MaxDepth       int

	instrID  map[ssa.Instruction]int
	regIDs   map[ssa.Value]int
	live     map[*ssa.Function]*liveInfo
	ctxs     map[[2]int]int
	ctxLoop  []bool
	goBase   int // frames below the goroutine being analysed
	inGo     int
	joins    map[joinSite][]*V
	orders   map[*ssa.Function][]int
	loops    map[*ssa.Function][]*loopInfo
	wgIter   map[wgIterKey]map[int]bool
	Visited  map[*ssa.Function]bool // functions analysed
	Blocks   map[*ssa.BasicBlock]bool
	Calls    int // calls interpreted
	NStates  int
	LoopOnce bool
	Mods     *ModSets
	FieldFns FieldFns
	Volatile map[FieldRef]bool // fields written after construction
	Prof     map[*ssa.Function]int
	// KeyExtra adds client data to the property key.
	KeyExtra func(e *Engine, s *State) uint64
	// SplitRet keeps outcomes of inlined functions apart that differ in a constant last result.
	// LaxLookup: a lookup that does not ask whether the key is there finds something unknown, not nothing.
	LaxLookup bool
	SplitRet  bool
	// Settled: variables that never change, and their values.
	Settled map[*V]*V
	// Differs tells that two values are never equal.
	Differs func(a, b *V) bool
}

// New makes an engine.
func New(p *load.Program) *Engine {
	return &Engine{KnownNonNil: map[*V]bool{}, P: p, in: &interner{tab: map[string]*V{}}, MaxSteps: 3000000, MaxDepth: 40,
		instrID: map[ssa.Instruction]int{}, regIDs: map[ssa.Value]int{}, live: map[*ssa.Function]*liveInfo{},
		ctxs: map[[2]int]int{}, ctxLoop: []bool{false}, Visited: map[*ssa.Function]bool{}, Blocks: map[*ssa.BasicBlock]bool{}, DropDerefFacts: true,
		joins: map[joinSite][]*V{}, orders: map[*ssa.Function][]int{},
		loops: map[*ssa.Function][]*loopInfo{}, wgIter: map[wgIterKey]map[int]bool{}}
}

func (e *Engine) iid(i ssa.Instruction) int {
	n, ok := e.instrID[i]
	if !ok {
		n = len(e.instrID) + 1
		e.instrID[i] = n
	}
	return n
}

func (e *Engine) regID(r ssa.Value) int {
	n, ok := e.regIDs[r]
	if !ok {
		n = len(e.regIDs) + 1
		e.regIDs[r] = n
	}
	return n
}

func (e *Engine) subctx(ctx int, i ssa.Instruction, forceLoop bool) int {
	k := [2]int{ctx, e.iid(i)}
	n, ok := e.ctxs[k]
	if !ok {
		n = len(e.ctxLoop)
		e.ctxs[k] = n
		e.ctxLoop = append(e.ctxLoop, e.ctxLoop[ctx] || forceLoop || e.liveOf(i.Parent()).inLoop[i.Block().Index])
	}
	return n
}

// ---- value constructors

// Nil is the nil value.
func (e *Engine) Nil() *V { return e.in.mk(KNil, "nil", false, nil, nil) }

// Bool makes a boolean constant.
func (e *Engine) Bool(b bool) *V { return e.Const(constant.MakeBool(b)) }

// Const makes a constant.
func (e *Engine) Const(c constant.Value) *V {
	v := e.in.mk(KConst, c.ExactString(), false, nil, nil)
	v.C = c
	return v
}

// Param makes a named entry value.
func (e *Engine) Param(name string) *V { return e.in.mk(KParam, name, false, nil, nil) }

// Field makes the address of a field.
func (e *Engine) Field(p *V, f string) *V { return e.in.mk(KField, f, false, nil, nil, p) }

func (e *Engine) fieldT(p *V, f string, t types.Type) *V {
	v := e.Field(p, f)
	if v.T == nil {
		v.T = t
	}
	return v
}

// Global is the address of a package level variable.
func (e *Engine) Global(g *ssa.Global) *V {
	return e.in.mk(KGlobal, g.RelString(nil), false, nil, nil)
}

// Deref makes the initial content of a location.
func (e *Engine) Deref(p *V) *V {
	v := e.in.mk(KDeref, "", false, nil, nil, p)
	return v
}

// Tuple makes a tuple.
func (e *Engine) Tuple(vs ...*V) *V { return e.in.mk(KTuple, "", false, nil, nil, vs...) }

// Expr makes a pure expression.
func (e *Engine) Expr(op string, args ...*V) *V {
	d := 0
	for _, a := range args {
		if a.Depth > d {
			d = a.Depth
		}
	}
	if d > 24 {
		return e.in.mk(KSym, "deep:"+op, false, nil, nil)
	}
	return e.in.mk(KExpr, op, false, nil, nil, args...)
}

// Fresh makes a new opaque value for an instruction, ageing any previous instance.
func (e *Engine) Fresh(st *State, instr ssa.Instruction, ctx int, tag string, nonNil bool, args ...*V) *V {
	return e.fresh(KSym, st, instr, ctx, tag, nonNil, args...)
}

func (e *Engine) fresh(k Kind, st *State, instr ssa.Instruction, ctx int, tag string, nonNil bool, args ...*V) *V {
	for i, a := range args {
		if a != nil && a.Depth > 16 {
			args[i] = e.in.mk(KSym, "deep", false, nil, nil)
		}
	}
	name := tag + "@" + strconv.Itoa(e.iid(instr)) + "/" + strconv.Itoa(ctx)
	v := e.in.mk(k, name, false, nil, nil, args...)
	v.NonNil = nonNil || k == KAlloc
	if e.ctxLoop[ctx] || e.liveOf(instr.Parent()).inLoop[instr.Block().Index] {
		if r, ok := instr.(ssa.Value); ok {
			if tag != "it" {
				if cur, ok := st.Top().Regs[r]; ok && cur.Mentions(v) {
					delete(st.Top().Regs, r)
				}
			}
		}
		if e.occurs(st, v) {
			o := e.in.mk(k, name, true, nil, nil, args...)
			o.NonNil = v.NonNil
			o.T = v.T
			e.rename(st, v, o)
			if k == KAlloc && len(st.Maps) > 0 {
				var ms []*V
				for m, mm := range st.Maps {
					for _, x := range mm {
						if x == o {
							ms = addV(ms, m)
						}
					}
				}
				sortVs(ms)
				for _, m := range ms {
					e.collapse(st, m, nil)
				}
			}
		}
	}
	return v
}

func isZeroable(t types.Type) bool { return true }

// zero value of a type.
func (e *Engine) zero(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Bool(false)
		case u.Info()&types.IsString != 0:
			return e.Const(constant.MakeString(""))
		case u.Info()&types.IsNumeric != 0:
			return e.Const(constant.MakeInt64(0))
		}
		return e.Nil()
	case *types.Struct, *types.Array:
		return e.in.mk(KConst, "zero", false, nil, nil)
	}
	return e.Nil()
}

// ---- liveness

type liveInfo struct {
	liveIn  []map[ssa.Value]bool
	liveOut []map[ssa.Value]bool
	inLoop  []bool
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (e *Engine) liveOf(fn *ssa.Function) *liveInfo {
	if li, ok := e.live[fn]; ok {
		return li
	}
	n := len(fn.Blocks)
	li := &liveInfo{liveIn: make([]map[ssa.Value]bool, n), liveOut: make([]map[ssa.Value]bool, n), inLoop: make([]bool, n)}
	for i := range li.liveIn {
		li.liveIn[i] = map[ssa.Value]bool{}
		li.liveOut[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := li.liveOut[i]
			for _, s := range b.Succs {
				for v := range li.liveIn[s.Index] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b || k == pi {
							if v := ph.Edges[k]; trackable(v) && !out[v] {
								out[v] = true
								changed = true
							}
						}
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && trackable(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !li.liveIn[i][v] {
					li.liveIn[i][v] = true
					changed = true
				}
			}
		}
	}
	// loops: a block is in a loop if it can reach itself
	for i := range fn.Blocks {
		seen := make([]bool, n)
		var st []*ssa.BasicBlock
		st = append(st, fn.Blocks[i].Succs...)
		for len(st) > 0 {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[b.Index] {
				continue
			}
			seen[b.Index] = true
			st = append(st, b.Succs...)
		}
		li.inLoop[i] = seen[i]
	}
	e.live[fn] = li
	return li
}

func (e *Engine) pruneAfter(st *State, b *ssa.BasicBlock, idx int) {
	li := e.liveOf(b.Parent())
	need := map[ssa.Value]bool{}
	for v := range li.liveOut[b.Index] {
		need[v] = true
	}
	for k := len(b.Instrs) - 1; k > idx; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			delete(need, v)
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && trackable(*op) {
				need[*op] = true
			}
		}
	}
	f := st.Top()
	for r := range f.Regs {
		if !need[r] {
			delete(f.Regs, r)
		}
	}
}

// ---- evaluation

func (e *Engine) eval(st *State, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if v.Type() == nil {
				return e.Nil()
			}
			return e.zero(v.Type())
		}
		return e.Const(v.Value)
	case *ssa.Global:
		r := e.in.mk(KGlobal, v.RelString(nil), false, nil, nil)
		r.NonNil = true
		return r
	case *ssa.Function:
		return e.in.mk(KFn, v.String(), false, v, nil)
	case *ssa.Builtin:
		return e.in.mk(KConst, "builtin:"+v.Name(), false, nil, nil)
	}
	if r, ok := st.Top().Regs[v]; ok {
		return r
	}
	return e.in.mk(KSym, "undef:"+v.Name()+"@"+strconv.Itoa(e.regID(v)), false, nil, nil)
}

func isSync(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic") {
		return true
	}
	return false
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func hasPrefix(k, p *V) bool {
	for {
		if k == p {
			return true
		}
		if k.K == KField || k.K == KIndex {
			k = k.Args[0]
			continue
		}
		return false
	}
}

func (e *Engine) havocMark(p *V) *V { return e.Field(p, "·havoc") }

// LoadFrom reads a location of type t.
func (e *Engine) LoadFrom(st *State, p *V, t types.Type) *V {
	if v, ok := st.Mem[p]; ok {
		return v
	}
	if v, ok := e.Settled[p]; ok {
		return v
	}
	if structOf(t) != nil {
		return e.Deref(p)
	}
	if r := p; !(e.inGo > 0 && e.volatile(p)) {
		// fresh local object: unwritten locations are zero
		fresh := false
		for {
			if _, hv := st.Mem[e.havocMark(r)]; hv {
				fresh = false
				break
			}
			if r.K == KField || r.K == KIndex {
				if v, ok := st.Mem[r.Args[0]]; ok && r.K == KField {
					// whole-struct value stored earlier
					return e.fieldOf(st, v, r.S, t, r.T)
				}
				r = r.Args[0]
				continue
			}
			fresh = r.K == KAlloc && r.S != "mapelem" // what stands for all elements of a map may have been anything
			break
		}
		if fresh && t != nil {
			return e.zero(t)
		}
	}
	v := e.Deref(p)
	if p.K == KGlobal && t != nil && types.Identical(t, errorType) {
		v.NonNil = true
	}
	return v
}

// volatile: the location is a field other goroutines write.
func (e *Engine) volatile(p *V) bool {
	return p.K == KField && p.T != nil && e.Volatile[FieldRef{p.T.String(), p.S}]
}

var errorType = types.Universe.Lookup("error").Type()

// IsError reports whether t is error (or an interface type defined as error).
func IsError(t types.Type) bool {
	if t == nil {
		return false
	}
	return types.Identical(t, errorType) || types.Identical(t.Underlying(), errorType.Underlying())
}

func (e *Engine) mapRead(st *State, m *V, t types.Type, in ssa.Instruction) {
	if e.Hooks.MapRead == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		e.Hooks.MapRead(e, st, m, in)
	}
}

func (e *Engine) fieldOf(st *State, sv *V, f string, t, owner types.Type) *V {
	switch {
	case sv.K == KDeref:
		return e.LoadFrom(st, e.fieldT(sv.Args[0], f, owner), t)
	case sv.K == KConst && sv.S == "zero" && t != nil:
		return e.zero(t)
	}
	return e.Expr("field:"+f, sv)
}

// StoreTo writes a location.
func (e *Engine) StoreTo(st *State, p, v *V, t types.Type) {
	s := structOf(t)
	if s == nil {
		st.Mem[p] = v
		if v.K == KDeref && v.Args[0] == p {
			delete(st.Mem, p)
		}
		return
	}
	if v.K == KDeref && v.Args[0] == p {
		return
	}
	e.storeStruct(st, p, v, s, t, 0)
}

func (e *Engine) storeStruct(st *State, p, v *V, s *types.Struct, t types.Type, depth int) {
	type fv struct {
		f *types.Var
		v *V
	}
	var fs []fv
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isSync(f.Type()) {
			continue
		}
		fs = append(fs, fv{f, e.fieldOf(st, v, f.Name(), f.Type(), t)})
	}
	if depth == 0 {
		for k := range st.Mem {
			if hasPrefix(k, p) && k != p {
				delete(st.Mem, k)
			}
		}
		delete(st.Mem, p)
	}
	for _, x := range fs {
		if sub := structOf(x.f.Type()); sub != nil {
			if depth < 4 {
				e.storeStruct(st, e.fieldT(p, x.f.Name(), t), x.v, sub, x.f.Type(), depth+1)
			}
			continue
		}
		st.Mem[e.fieldT(p, x.f.Name(), t)] = x.v
	}
}

// ---- facts

func unwrapIface(v *V) *V {
	return v
}

// NilFact tells whether v is known nil / not nil.
func (e *Engine) NilFact(st *State, v *V) Fact {
	if e.KnownNonNil[v] {
		return NotNil
	}
	if v.NonNil {
		return NotNil
	}
	switch v.K {
	case KNil:
		return IsNil
	case KAlloc, KField, KIndex, KFn, KGlobal, KIface, KConst, KTuple:
		return NotNil
	}
	switch st.Facts[v] {
	case IsNil:
		return IsNil
	case NotNil, NonEmpty:
		return NotNil
	}
	return Unknown
}

func b2f(b bool) Fact {
	if b {
		return True
	}
	return False
}

func notF(f Fact) Fact {
	switch f {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

// Truth evaluates a condition.
func (e *Engine) Truth(st *State, c *V) Fact {
	switch c.K {
	case KConst:
		if c.C != nil && c.C.Kind() == constant.Bool {
			return b2f(constant.BoolVal(c.C))
		}
		return Unknown
	case KExpr:
		switch c.S {
		case "!":
			return notF(e.Truth(st, c.Args[0]))
		case "==":
			a, b := c.Args[0], c.Args[1]
			if a == b && !isOldish(a) {
				return True
			}
			if e.Differs != nil && e.Differs(a, b) {
				return False
			}
			na, nb := e.NilFact(st, a), e.NilFact(st, b)
			if b.K == KNil && na != Unknown {
				return b2f(na == IsNil)
			}
			if a.K == KNil && nb != Unknown {
				return b2f(nb == IsNil)
			}
			if na == IsNil && nb == NotNil || na == NotNil && nb == IsNil {
				if a.K != KConst && b.K != KConst {
					return False
				}
			}
			if a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() {
				return b2f(constant.Compare(a.C, token.EQL, b.C))
			}
			if a.K == KGlobal && b.K == KGlobal {
				return b2f(a == b)
			}
			if r := e.lenCmp(st, a, b, token.EQL); r != Unknown {
				return r
			}
		case "<":
			a, b := c.Args[0], c.Args[1]
			if a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() && a.C.Kind() != constant.Bool {
				return b2f(constant.Compare(a.C, token.LSS, b.C))
			}
			if r := e.lenCmp(st, a, b, token.LSS); r != Unknown {
				return r
			}
		}
	}
	switch st.Facts[c] {
	case True:
		return True
	case False:
		return False
	}
	return Unknown
}

func isOldish(v *V) bool { return v.Any(func(x *V) bool { return x.Old }) }

func constInt(v *V) (int64, bool) {
	if v.C != nil && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}

// lenCmp decides comparisons of len(x) for slices known empty or non-empty.
func (e *Engine) lenCmp(st *State, a, b *V, op token.Token) Fact {
	lenOf := func(v *V) (min, max int64, ok bool) {
		if n, isc := constInt(v); isc {
			return n, n, true
		}
		if v.K == KExpr && v.S == "len" {
			x := v.Args[0]
			switch {
			case x.K == KNil || st.Facts[x] == IsNil:
				return 0, 0, true
			case st.Facts[x] == NonEmpty:
				return 1, 1 << 40, true
			}
			return 0, 1 << 40, true
		}
		return 0, 0, false
	}
	if !(a.K == KExpr && a.S == "len") && !(b.K == KExpr && b.S == "len") {
		return Unknown
	}
	amin, amax, ok1 := lenOf(a)
	bmin, bmax, ok2 := lenOf(b)
	if !ok1 || !ok2 {
		return Unknown
	}
	switch op {
	case token.EQL:
		if amax < bmin || bmax < amin {
			return False
		}
		if amin == amax && bmin == bmax && amin == bmin {
			return True
		}
	case token.LSS:
		if amax < bmin {
			return True
		}
		if amin >= bmax {
			return False
		}
	}
	return Unknown
}

// Assume refines the state with cond==truth. It reports whether that is consistent.
func (e *Engine) Assume(st *State, c *V, truth bool) bool {
	switch t := e.Truth(st, c); t {
	case True:
		return truth
	case False:
		return !truth
	}
	if c.K == KExpr {
		switch c.S {
		case "!":
			return e.Assume(st, c.Args[0], !truth)
		case "==":
			a, b := c.Args[0], c.Args[1]
			if a.K == KNil {
				a, b = b, a
			}
			if b.K == KNil {
				if truth {
					st.Facts[a] = IsNil
				} else if st.Facts[a] != NonEmpty {
					st.Facts[a] = NotNil
				}
				return true
			}
			if truth {
				for _, pr := range [][2]*V{{a, b}, {b, a}} {
					if e.NilFact(st, pr[0]) == NotNil && pr[0].K != KConst && e.NilFact(st, pr[1]) == Unknown {
						st.Facts[pr[1]] = NotNil
					}
				}
			}
			e.assumeLen(st, a, b, token.EQL, truth)
		case "<":
			e.assumeLen(st, c.Args[0], c.Args[1], token.LSS, truth)
		}
	}
	st.Facts[c] = b2f(truth)
	return true
}

func (e *Engine) assumeLen(st *State, a, b *V, op token.Token, truth bool) {
	set := func(x *V) {
		if st.Facts[x] == Unknown || st.Facts[x] == NotNil {
			st.Facts[x] = NonEmpty
		}
	}
	if a.K == KExpr && a.S == "len" {
		if n, ok := constInt(b); ok {
			if op == token.EQL && (truth && n > 0 || !truth && n == 0) {
				set(a.Args[0])
			}
			if op == token.LSS && !truth && n >= 1 { // !(len < n)
				set(a.Args[0])
			}
		}
	}
	if b.K == KExpr && b.S == "len" {
		if n, ok := constInt(a); ok && op == token.LSS && truth && n >= 0 { // n < len
			set(b.Args[0])
		}
		if op == token.EQL {
			if n, ok := constInt(a); ok && (truth && n > 0 || !truth && n == 0) {
				set(b.Args[0])
			}
		}
	}
}

func (e *Engine) binop(st *State, op token.Token, a, b *V) *V {
	switch op {
	case token.EQL, token.NEQ:
		x, y := a, b
		if x.K == KConst || x.K == KNil {
			x, y = y, x
		}
		if y.K != KConst && y.K != KNil && x.ID > y.ID {
			x, y = y, x
		}
		r := e.Expr("==", x, y)
		if x.C != nil && y.C != nil && x.C.Kind() == y.C.Kind() {
			r = e.Bool(constant.Compare(x.C, token.EQL, y.C))
		}
		if op == token.NEQ {
			return e.not(r)
		}
		return r
	case token.LSS:
		return e.less(a, b)
	case token.GTR:
		return e.less(b, a)
	case token.GEQ:
		return e.not(e.less(a, b))
	case token.LEQ:
		return e.not(e.less(b, a))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.C != nil && b.C != nil && a.C.Kind() == constant.Int && b.C.Kind() == constant.Int {
			return e.Const(constant.BinaryOp(a.C, op, b.C))
		}
	case token.SHL, token.SHR:
		if a.C != nil && b.C != nil && a.C.Kind() == constant.Int {
			if n, ok := constInt(b); ok && n >= 0 && n < 64 {
				return e.Const(constant.Shift(a.C, op, uint(n)))
			}
		}
	}
	return e.Expr(op.String(), a, b)
}

func (e *Engine) less(a, b *V) *V {
	if a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() && a.C.Kind() != constant.Bool {
		return e.Bool(constant.Compare(a.C, token.LSS, b.C))
	}
	return e.Expr("<", a, b)
}

func (e *Engine) not(v *V) *V {
	if v.K == KExpr && v.S == "!" {
		return v.Args[0]
	}
	if v.C != nil && v.C.Kind() == constant.Bool {
		return e.Bool(!constant.BoolVal(v.C))
	}
	return e.Expr("!", v)
}

// ---- running

// Run analyses fn as an entry point. args may be nil (symbolic parameters).
func (e *Engine) Run(fn *ssa.Function, args []*V) []Outcome {
	st := newState()
	return e.RunFrom(fn, args, st)
}

// RunFrom analyses fn from a prepared state.
func (e *Engine) RunFrom(fn *ssa.Function, args []*V, st *State) []Outcome {
	if args == nil {
		for i, p := range fn.Params {
			name := p.Name()
			if name == "" || name == "_" {
				name = "p" + strconv.Itoa(i)
			}
			v := e.Param(name)
			if i == 0 && fn.Signature.Recv() != nil {
				v.NonNil = true
			}
			args = append(args, v)
		}
	}
	var bind []*V
	for _, f := range fn.FreeVars {
		b := e.Param("free:" + f.Name())
		b.NonNil = true
		bind = append(bind, b)
	}
	return e.run(fn, args, bind, st, 0)
}

// NewState makes an empty state.
func NewState() *State { return newState() }

type item struct {
	b  *ssa.BasicBlock
	st *State
	k  slotKey
}

type slotKey struct {
	b int
	h hash128
}

type slot struct {
	st    *State // join of everything that arrived
	h     hash128
	dirty bool
	k     slotKey
	b     *ssa.BasicBlock
	n     int
}

func rpo(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	num := make([]int, n)
	seen := make([]bool, n)
	c := n
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s.Index] {
				dfs(s)
			}
		}
		c--
		num[b.Index] = c
	}
	dfs(fn.Blocks[0])
	return num
}

func (e *Engine) enterBlock(b, pred *ssa.BasicBlock, s *State, ctx int) {
	e.Blocks[b] = true
	li := e.liveOf(b.Parent())
	f := s.Top()
	if pred != nil {
		e.wgEdge(s, pred, b)
		pi := -1
		for k, p := range b.Preds {
			if p == pred {
				pi = k
				break
			}
		}
		type as struct {
			p *ssa.Phi
			v *V
		}
		var asg []as
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := e.eval(s, ph.Edges[pi])
			if b.Dominates(pred) && isNumeric(ph.Type()) && v.K != KConst && v.K != KParam && v != f.Regs[ph] {
				v = nil
			}
			asg = append(asg, as{ph, v})
		}
		for _, a := range asg {
			if a.v != nil {
				f.Regs[a.p] = a.v
			}
		}
		for _, a := range asg {
			if a.v == nil {
				v := e.Fresh(s, a.p, ctx, "phi:"+a.p.Comment, false)
				s.Top().Regs[a.p] = v
			}
		}
		f = s.Top()
	}
	for r := range f.Regs {
		if li.liveIn[b.Index][r] {
			continue
		}
		if ph, ok := r.(*ssa.Phi); ok && ph.Block() == b {
			continue
		}
		delete(f.Regs, r)
	}
	e.gc(s)
	if len(b.Preds) > 1 && len(s.Maps) > 0 && len(s.Held) > 0 {
		e.canonMaps(s)
	}
	e.ageJoins(s, joinSite{b, ctx})
	e.gc(s)
}

// ageJoins: join symbols of a site that are present in a state arriving there belong to an earlier
// pass through the site.
func (e *Engine) ageJoins(s *State, site joinSite) {
	for _, j := range e.joins[site] {
		if e.occurs(s, j) {
			o := e.in.mk(KSym, j.S, true, nil, nil)
			o.NonNil = j.NonNil
			e.rename(s, j, o)
		}
	}
}

func (e *Engine) run(fn *ssa.Function, args, bind []*V, st *State, ctx int) []Outcome {
	e.Visited[fn] = true
	fr := &Frame{Fn: fn, Regs: map[ssa.Value]*V{}, Ctx: ctx, Go: e.inGo > 0 && len(st.Frames) == e.goBase}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.Regs[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.Regs[f] = bind[i]
		}
	}
	st.Frames = append(st.Frames[:len(st.Frames):len(st.Frames)], fr)
	depth := len(st.Frames)
	order, ok := e.orders[fn]
	if !ok {
		order = rpo(fn)
		e.orders[fn] = order
	}
	slots := map[slotKey]*slot{}
	var work []*slot
	add := func(b, pred *ssa.BasicBlock, s *State) {
		if len(s.Frames) != depth {
			panic("frame depth")
		}
		if e.Hooks.Prune != nil && e.Hooks.Prune(s) {
			return
		}
		e.enterBlock(b, pred, s, ctx)
		k := slotKey{b.Index, e.propKey(s)}
		sl := slots[k]
		if sl == nil {
			sl = &slot{st: s, h: e.hash(s), dirty: true, k: k, b: b}
			slots[k] = sl
			work = append(work, sl)
			return
		}
		h := e.hash(s)
		if h == sl.h {
			return
		}
		j := e.join(sl.st, s, joinSite{b, ctx})
		e.gc(j)
		jh := e.hash(j)
		if jh == sl.h {
			return
		}
		sl.n++
		if sl.n > 200 {
			e.Truncated = fmt.Sprintf("no fixpoint in %s block %d", fn, b.Index)
			return
		}
		sl.st, sl.h = j, jh
		if !sl.dirty {
			sl.dirty = true
			work = append(work, sl)
		}
	}
	type outSlot struct {
		o Outcome
		h hash128
	}
	outs := map[hash128]*outSlot{}
	var outOrder []*outSlot
	add(fn.Blocks[0], nil, st)
	for len(work) > 0 {
		best := 0
		for i, w := range work {
			if order[w.b.Index] < order[work[best].b.Index] {
				best = i
			}
		}
		sl := work[best]
		work = append(work[:best], work[best+1:]...)
		sl.dirty = false
		if e.Prof != nil {
			e.Prof[fn]++
		}
		e.NStates++
		e.execBlock(sl.b, 0, sl.st.Clone(), ctx, func(o Outcome) {
			// identity of the outcome includes the shape of the return value
			s := o.St
			if e.Hooks.Prune != nil && e.Hooks.Prune(s) {
				return
			}
			s.Top().Regs = map[ssa.Value]*V{}
			s.Top().Defers = nil
			if o.Ret != nil {
				s.Marks["·ret"] = nil
				parts := []*V{o.Ret}
				if o.Ret.K == KTuple {
					parts = o.Ret.Args
				}
				if e.SplitRet && len(parts) > 0 {
					// failed and successful returns stay apart
					if l := parts[len(parts)-1]; l.K == KNil || l.K == KConst {
						s.Marks["·ret"] = l
					}
				}
				for i, v := range parts {
					s.Chan[e.retSlot(i)] = v
				}
			}
			e.gc(s)
			e.ageJoins(s, joinSite{fn.Blocks[0], -1 - ctx})
			pk := e.propKey(s)
			if os := outs[pk]; os != nil {
				h := e.hash(s)
				if h == os.h {
					return
				}
				os.o.St = e.join(os.o.St, s, joinSite{fn.Blocks[0], -1 - ctx})
				os.h = e.hash(os.o.St)
				return
			}
			os := &outSlot{o: Outcome{s, o.Ret}, h: e.hash(s)}
			outs[pk] = os
			outOrder = append(outOrder, os)
		}, add)
		if e.Truncated != "" {
			break
		}
	}
	if ProfSlots != nil {
		ProfSlots(fn, len(st.Frames), func(f func(b *ssa.BasicBlock, n int)) {
			m := map[*ssa.BasicBlock]int{}
			for _, sl := range slots {
				m[sl.b]++
			}
			for b, n := range m {
				f(b, n)
			}
		}, func() []*State {
			var l []*State
			for _, sl := range slots {
				if strconv.Itoa(sl.b.Index) == os.Getenv("VSA_BLOCK") {
					l = append(l, sl.st)
				}
			}
			return l
		})
	}
	var res []Outcome
	for _, os := range outOrder {
		s := os.o.St
		ret := os.o.Ret
		if ret != nil {
			if ret.K == KTuple {
				var vs []*V
				for i := range ret.Args {
					vs = append(vs, s.Chan[e.retSlot(i)])
				}
				ret = e.Tuple(vs...)
			} else {
				ret = s.Chan[e.retSlot(0)]
			}
			for i := 0; ; i++ {
				if _, ok := s.Chan[e.retSlot(i)]; !ok {
					break
				}
				delete(s.Chan, e.retSlot(i))
			}
			delete(s.Marks, "·ret")
		}
		s.Frames = append([]*Frame(nil), s.Frames[:len(s.Frames)-1]...)
		if k := len(s.Frames); k > 0 {
			cf := *s.Frames[k-1]
			cf.Regs = make(map[ssa.Value]*V, len(cf.Regs)+1)
			for r, v := range s.Frames[k-1].Regs {
				cf.Regs[r] = v
			}
			cf.Defers = append([]deferred(nil), cf.Defers...)
			s.Frames[k-1] = &cf
		}
		if e.Hooks.Leave != nil {
			e.Hooks.Leave(e, fn, s, ret)
		}
		res = append(res, Outcome{s, ret})
	}
	return res
}

func (e *Engine) retSlot(i int) *V {
	return e.in.mk(KParam, "·ret"+strconv.Itoa(i), false, nil, nil)
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsString) != 0
}

// execBlock runs instructions from idx; ret receives returns, next receives successor states.
func (e *Engine) execBlock(b *ssa.BasicBlock, idx int, st *State, ctx int, ret func(Outcome), next func(b, pred *ssa.BasicBlock, s *State)) {
	for ; idx < len(b.Instrs); idx++ {
		e.Steps++
		if e.Steps > e.MaxSteps {
			e.Truncated = fmt.Sprintf("step limit reached in %s", b.Parent())
			return
		}
		if e.Steps&1023 == 0 && e.Stop != nil {
			if why := e.Stop(); why != "" {
				e.Truncated = why
				e.MaxSteps = 0
				return
			}
		}
		f := st.Top()
		switch in := b.Instrs[idx].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			v := e.fresh(KAlloc, st, in, ctx, "new:"+allocName(in), true)
			v.T = in.Type()
			f = st.Top()
			f.Regs[in] = v
		case *ssa.BinOp:
			f.Regs[in] = e.binop(st, in.Op, e.eval(st, in.X), e.eval(st, in.Y))
		case *ssa.UnOp:
			x := e.eval(st, in.X)
			switch in.Op {
			case token.MUL:
				e.derefAt(st, x, in)
				if e.Hooks.Load != nil {
					e.Hooks.Load(e, st, x, in)
				}
				f.Regs[in] = e.load(st, x, in.Type(), in, ctx)
			case token.NOT:
				f.Regs[in] = e.not(x)
			case token.ARROW:
				e.waitPoint(st, in)
				if IsBucket(in.X.Type()) {
					e.token(st, x, in, true)
				}
				for _, o := range e.recv(st, x, in, ctx, in.CommaOk, noData(in.X.Type())) {
					o.St.Top().Regs[in] = o.Ret
					e.execBlock(b, idx+1, o.St, ctx, ret, next)
				}
				return
			default:
				f.Regs[in] = e.Expr(in.Op.String(), x)
			}
		case *ssa.ChangeType:
			f.Regs[in] = e.eval(st, in.X)
		case *ssa.ChangeInterface:
			f.Regs[in] = e.eval(st, in.X)
		case *ssa.Convert:
			x := e.eval(st, in.X)
			if x.C != nil && isNumeric(in.Type()) && isNumeric(in.X.Type()) {
				f.Regs[in] = x
			} else {
				f.Regs[in] = e.Expr("conv:"+types.TypeString(in.Type().Underlying(), nil), x)
			}
		case *ssa.MultiConvert:
			f.Regs[in] = e.Expr("conv", e.eval(st, in.X))
		case *ssa.SliceToArrayPointer:
			f.Regs[in] = e.eval(st, in.X)
		case *ssa.MakeInterface:
			v := e.in.mk(KIface, in.X.Type().String(), false, nil, in.X.Type(), e.eval(st, in.X))
			v.T = in.X.Type()
			f.Regs[in] = v
		case *ssa.MakeClosure:
			var bs []*V
			for _, x := range in.Bindings {
				bs = append(bs, e.eval(st, x))
			}
			f.Regs[in] = e.in.mk(KFn, in.Fn.String(), false, in.Fn.(*ssa.Function), nil, bs...)
		case *ssa.MakeMap:
			v := e.fresh(KAlloc, st, in, ctx, "map", true)
			st.Top().Regs[in] = v
			st.Maps[v] = map[*V]*V{}
		case *ssa.MakeChan:
			v := e.fresh(KAlloc, st, in, ctx, "chan", true, e.eval(st, in.Size))
			st.Top().Regs[in] = v
		case *ssa.MakeSlice:
			v := e.fresh(KSym, st, in, ctx, "make", true, e.eval(st, in.Len))
			st.Top().Regs[in] = v
			if n, ok := constInt(e.eval(st, in.Len)); ok && n > 0 {
				st.Facts[v] = NonEmpty
			}
		case *ssa.FieldAddr:
			x := e.eval(st, in.X)
			e.derefAt(st, x, in)
			fv := e.Field(x, fieldName(in.X.Type(), in.Field))
			if fv.T == nil {
				fv.T = in.X.Type().Underlying().(*types.Pointer).Elem()
			}
			f.Regs[in] = fv
		case *ssa.Field:
			x := e.eval(st, in.X)
			f.Regs[in] = e.fieldOf(st, x, structOf(in.X.Type()).Field(in.Field).Name(), in.Type(), in.X.Type())
		case *ssa.IndexAddr:
			x := e.eval(st, in.X)
			if e.Hooks.Index != nil {
				e.Hooks.Index(e, st, x, e.eval(st, in.Index), in)
			}
			f.Regs[in] = e.in.mk(KIndex, "", false, nil, nil, x, e.eval(st, in.Index))
		case *ssa.Index:
			f.Regs[in] = e.Expr("index", e.eval(st, in.X), e.eval(st, in.Index))
		case *ssa.Lookup:
			x, k := e.eval(st, in.X), e.eval(st, in.Index)
			e.mapRead(st, x, in.X.Type(), in)
			for _, o := range e.lookup(st, in, x, k, ctx) {
				o.St.Top().Regs[in] = o.Ret
				e.execBlock(b, idx+1, o.St, ctx, ret, next)
			}
			return
		case *ssa.Range:
			x := e.eval(st, in.X)
			e.mapRead(st, x, in.X.Type(), in)
			v := e.fresh(KSym, st, in, ctx, "iter", true, x)
			st.Top().Regs[in] = v
			st.Iter[v] = map[*V]bool{}
		case *ssa.Next:
			if it := e.eval(st, in.Iter); len(it.Args) > 0 && !in.IsString {
				if r, ok := in.Iter.(*ssa.Range); ok {
					e.mapRead(st, it.Args[0], r.X.Type(), in)
				}
			}
			for _, o := range e.next(st, in, ctx) {
				o.St.Top().Regs[in] = o.Ret
				e.execBlock(b, idx+1, o.St, ctx, ret, next)
			}
			return
		case *ssa.Slice:
			x := e.eval(st, in.X)
			f.Regs[in] = e.slice(st, in, x, ctx)
		case *ssa.Extract:
			t := e.eval(st, in.Tuple)
			if t.K == KTuple && in.Index < len(t.Args) {
				f.Regs[in] = t.Args[in.Index]
			} else {
				f.Regs[in] = e.Expr("extract"+strconv.Itoa(in.Index), t)
			}
		case *ssa.TypeAssert:
			for _, o := range e.typeAssert(st, in, ctx) {
				o.St.Top().Regs[in] = o.Ret
				e.execBlock(b, idx+1, o.St, ctx, ret, next)
			}
			return
		case *ssa.Store:
			p, v := e.eval(st, in.Addr), e.eval(st, in.Val)
			e.derefAt(st, p, in)
			if e.Hooks.Store != nil {
				e.Hooks.Store(e, st, p, v, in)
			}
			e.StoreTo(st, p, v, in.Val.Type())
		case *ssa.MapUpdate:
			m, k, v := e.eval(st, in.Map), e.eval(st, in.Key), e.eval(st, in.Value)
			if e.Hooks.MapUpd != nil {
				e.Hooks.MapUpd(e, st, m, k, v, in)
			}
			if mm, ok := st.Maps[m]; ok && trackElem(in.Value.Type()) {
				if k.C == nil {
					k = e.in.mk(KSym, "lastkey", true, nil, nil, m)
				}
				if prev, has := mm[k]; len(mm) > 0 && (!has || prev != v) {
					e.collapse(st, m, v)
					mm = st.Maps[m]
				}
				mm[k] = v
			} else if ok {
				delete(st.Maps, m)
			}
			st.Facts[m] = NonEmpty
		case *ssa.Send:
			ch, v := e.eval(st, in.Chan), e.eval(st, in.X)
			e.told(st, ch, 2)
			if e.Hooks.Send != nil {
				e.Hooks.Send(e, st, ch, v, in)
			}
			if IsBucket(in.Chan.Type()) {
				e.token(st, ch, in, false)
			}
			if IsError(in.X.Type()) {
				st.Chan[ch] = v
			}
		case *ssa.Select:
			e.waitPoint(st, in)
			for _, o := range e.sel(st, in, ctx) {
				o.St.Top().Regs[in] = o.Ret
				e.execBlock(b, idx+1, o.St, ctx, ret, next)
			}
			return
		case *ssa.Defer:
			fnv, args := e.callOperands(st, in.Common())
			d := deferred{in, fnv, args}
			dup := false
			for _, o := range f.Defers {
				if o.instr == d.instr && o.fn == d.fn && sameVs(o.args, d.args) {
					dup = true
				}
			}
			if !dup {
				f.Defers = append(f.Defers, d)
			}
		case *ssa.RunDefers:
			states := []*State{st}
			for {
				progress := false
				var nxt []*State
				for _, s := range states {
					fr := s.Top()
					n := len(fr.Defers)
					if n == 0 {
						nxt = append(nxt, s)
						continue
					}
					progress = true
					d := fr.Defers[n-1]
					fr.Defers = fr.Defers[:n-1]
					e.pruneAfter(s, b, idx)
					for _, o := range e.callWith(s, d.instr, d.fn, d.args, ctx, false) {
						nxt = append(nxt, o.St)
					}
				}
				states = e.dedupe(nxt)
				if !progress {
					break
				}
			}
			for _, s := range states {
				e.execBlock(b, idx+1, s, ctx, ret, next)
			}
			return
		case *ssa.Go:
			fnv, args := e.callOperands(st, in.Common())
			e.pruneAfter(st, b, idx)
			for _, s := range e.spawn(st, in, fnv, args, ctx) {
				e.execBlock(b, idx+1, s, ctx, ret, next)
			}
			return
		case *ssa.Call:
			fnv, args := e.callOperands(st, in.Common())
			e.pruneAfter(st, b, idx)
			outs := e.callWith(st, in, fnv, args, ctx, false)
			for _, o := range outs {
				if o.Ret != nil {
					o.St.Top().Regs[in] = o.Ret
				}
				e.execBlock(b, idx+1, o.St, ctx, ret, next)
			}
			return
		case *ssa.Panic:
			return
		case *ssa.Return:
			var rv *V
			switch len(in.Results) {
			case 0:
			case 1:
				rv = e.eval(st, in.Results[0])
			default:
				var vs []*V
				for _, r := range in.Results {
					vs = append(vs, e.eval(st, r))
				}
				rv = e.Tuple(vs...)
			}
			st.Tr = &Trace{st.Tr, in.Pos(), "return"}
			if len(st.Frames) == 1 && e.Hooks.Return != nil {
				e.Hooks.Return(e, st, rv)
			}
			ret(Outcome{st, rv})
			return
		case *ssa.Jump:
			next(b.Succs[0], b, st)
			return
		case *ssa.If:
			c := e.eval(st, in.Cond)
			t := e.Truth(st, c)
			if t != False {
				s := st
				if t == Unknown {
					s = st.Clone()
				}
				if e.Assume(s, c, true) {
					s.Tr = &Trace{s.Tr, in.Cond.Pos(), "true"}
					if e.Hooks.Branch != nil {
						e.Hooks.Branch(e, s, in, true)
					}
					next(b.Succs[0], b, s)
				}
			}
			if t != True {
				if e.Assume(st, c, false) {
					st.Tr = &Trace{st.Tr, in.Cond.Pos(), "false"}
					if e.Hooks.Branch != nil {
						e.Hooks.Branch(e, st, in, false)
					}
					next(b.Succs[1], b, st)
				}
			}
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				f.Regs[v] = e.Fresh(st, in, ctx, "op", false)
			}
		}
	}
}

func (e *Engine) dedupe(in []*State) []*State {
	if len(in) < 2 {
		return in
	}
	seen := map[hash128]bool{}
	var out []*State
	for _, s := range in {
		e.gc(s)
		h := e.hash(s)
		if !seen[h] {
			seen[h] = true
			out = append(out, s)
		}
	}
	return out
}

// collapse folds the entries of a map other than those holding keep into one summary entry,
// together with the locks that are reachable through functions stored in them.
func (e *Engine) collapse(st *State, m, keep *V) {
	sum := e.in.mk(KAlloc, "mapelem", true, nil, nil, m)
	sum.NonNil = true
	for {
		var v0 *V
		for k, v := range st.Maps[m] {
			if v != keep && v != sum && (v.K == KAlloc || v.K == KSym) && (v0 == nil || v.ID < v0.ID) {
				v0 = v
			}
			_ = k
		}
		if v0 == nil {
			break
		}
		var locks []*V
		for k, v := range st.Mem {
			if !v.hasFn || !hasPrefix(k, v0) {
				continue
			}
			v.Any(func(x *V) bool {
				if _, held := st.Held[x]; held {
					locks = addV(locks, x)
				} else if _, held := st.Held[e.inh(x)]; held {
					locks = addV(locks, x)
				}
				return false
			})
		}
		sortVs(locks)
		for _, l := range locks {
			b := l
			for b.K == KField || b.K == KDeref {
				b = b.Args[0]
			}
			if b.K != KIndex {
				continue
			}
			e.rename(st, b, e.in.mk(KIndex, "", true, nil, nil, b.Args[0], e.in.mk(KSym, "any", true, nil, nil, m)))
		}
		e.rename(st, v0, sum)
	}
	mm := st.Maps[m]
	nm := map[*V]*V{}
	for k, v := range mm {
		if v == sum {
			nm[e.in.mk(KSym, "anykey", true, nil, nil, m)] = sum
		} else {
			nm[k] = v
		}
	}
	st.Maps[m] = nm
}

// canonMaps gives the lock of the only element of a map a name that does not depend on the
// expression it was found with, so that states which differ in nothing else are joined.
func (e *Engine) canonMaps(st *State) {
	var ms []*V
	for m, mm := range st.Maps {
		if len(mm) > 0 {
			ms = append(ms, m)
		}
	}
	sortVs(ms)
	for _, m := range ms {
		if len(st.Maps[m]) > 1 {
			live := false
			for _, v := range st.Maps[m] {
				if v.S == "mapelem" {
					continue
				}
				for _, f := range st.Frames {
					for _, x := range f.Regs {
						live = live || x.Mentions(v)
					}
				}
				for k, x := range st.Mem {
					live = live || x.Mentions(v) && !hasPrefix(k, v)
				}
			}
			if !live {
				e.collapse(st, m, nil)
			}
			continue
		}
		for _, v0 := range st.Maps[m] {
			if v0.K != KAlloc && v0.K != KSym || v0.S == "mapelem" {
				continue
			}
			var locks []*V
			for k, v := range st.Mem {
				if !v.hasFn || !hasPrefix(k, v0) {
					continue
				}
				v.Any(func(x *V) bool {
					if _, held := st.Held[x]; held {
						locks = addV(locks, x)
					}
					return false
				})
			}
			sortVs(locks)
			for _, l := range locks {
				b := l
				for b.K == KField || b.K == KDeref {
					b = b.Args[0]
				}
				if b.K != KIndex || b.Args[1].K == KSym && (b.Args[1].S == "any" || b.Args[1].S == "one") {
					continue
				}
				live := false
				for _, f := range st.Frames {
					for _, v := range f.Regs {
						live = live || v.Mentions(b) || v.Mentions(b.Args[1])
					}
				}
				if !live {
					e.rename(st, b, e.in.mk(KIndex, "", true, nil, nil, b.Args[0], e.in.mk(KSym, "one", true, nil, nil, m)))
				}
			}
		}
	}
}

// trackElem: only maps whose elements can carry functions (lock handles) are tracked.
func trackElem(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Signature:
		return HoldsFunc(t, 0)
	}
	return false
}

func allocName(a *ssa.Alloc) string {
	if a.Comment != "" {
		return strings.ReplaceAll(a.Comment, "@", "")
	}
	return "obj"
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return structOf(t).Field(i).Name()
}

// deref notes that a pointer was dereferenced, hence not nil.
func (e *Engine) derefAt(st *State, p *V, in ssa.Instruction) {
	if e.Hooks.Deref != nil {
		e.Hooks.Deref(e, st, p, in)
	}
	e.deref(st, p)
}

func (e *Engine) deref(st *State, p *V) {
	if e.NilFact(st, p) == Unknown && (p.K == KSym || p.K == KDeref || p.K == KExpr) {
		st.Facts[p] = NotNil
	}
}

func (e *Engine) load(st *State, p *V, t types.Type, in ssa.Instruction, ctx int) *V {
	if p.K == KIndex {
		if es, ok := st.Seq[p.Args[0]]; ok && len(es) == 1 {
			if _, has := st.Mem[p]; !has {
				return es[0]
			}
		}
	}
	return e.LoadFrom(st, p, t)
}

func (e *Engine) callOperands(st *State, c *ssa.CallCommon) (*V, []*V) {
	var args []*V
	fnv := e.eval(st, c.Value)
	if c.IsInvoke() {
		args = append(args, fnv)
	}
	for _, a := range c.Args {
		args = append(args, e.eval(st, a))
	}
	return fnv, args
}

func (e *Engine) slice(st *State, in *ssa.Slice, x *V, ctx int) *V {
	var lo, hi *V = e.Nil(), e.Nil()
	if in.Low != nil {
		lo = e.eval(st, in.Low)
	}
	if in.High != nil {
		hi = e.eval(st, in.High)
	}
	if x.K == KAlloc {
		// slicing an array object: collect elements
		v := e.fresh(KSym, st, in, ctx, "lit", true)
		var es []*V
		for k, c := range st.Mem {
			if k.K == KIndex && k.Args[0] == x {
				es = append(es, c)
			}
		}
		sortVs(es)
		if len(es) > 0 {
			st.Seq[v] = es
			st.Facts[v] = NonEmpty
		}
		return v
	}
	if in.Low == nil && in.High == nil {
		return x
	}
	v := e.Expr("slice", x, lo, hi)
	if es, ok := st.Seq[x]; ok {
		st.Seq[v] = es
	}
	return v
}

func sortVs(l []*V) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j].ID < l[i].ID {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}

func (e *Engine) lookup(st *State, in *ssa.Lookup, m, k *V, ctx int) []Outcome {
	mk := func(s *State, v, ok *V) Outcome {
		if in.CommaOk {
			return Outcome{s, e.Tuple(v, ok)}
		}
		return Outcome{s, v}
	}
	if mm, tracked := st.Maps[m]; tracked {
		var et types.Type
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			et = mt.Elem()
		}
		if trackElem(et) || len(mm) == 0 && st.Facts[m] != NonEmpty {
			if v, ok := mm[k]; ok && !isOldish(k) {
				return []Outcome{mk(st, v, e.Bool(true))}
			}
			var outs []Outcome
			var vals []*V
			for _, v := range mm {
				vals = addV(vals, v)
			}
			sortVs(vals)
			for _, v := range vals {
				if k.C != nil {
					continue
				}
				outs = append(outs, mk(st.Clone(), v, e.Bool(true)))
			}
			if e.LaxLookup && !in.CommaOk {
				return append(outs, mk(st, e.Fresh(st, in, ctx, "lookup", false, m, k), nil))
			}
			outs = append(outs, mk(st, e.zero(et), e.Bool(false)))
			return outs
		}
	}
	v := e.Fresh(st, in, ctx, "lookup", false, m, k)
	okv := v
	if in.CommaOk {
		okv = e.Fresh(st, in, ctx, "lookupok", false, m, k)
	}
	return []Outcome{mk(st, v, okv)}
}

func (e *Engine) next(st *State, in *ssa.Next, ctx int) []Outcome {
	it := e.eval(st, in.Iter)
	var m *V
	if it.K == KSym && len(it.Args) == 1 {
		m = it.Args[0]
	}
	if m != nil && !in.IsString {
		if mm, ok := st.Maps[m]; ok {
			if len(mm) > 0 || st.Facts[m] != NonEmpty {
				vis := st.Iter[it]
				var outs []Outcome
				var keys []*V
				for k := range mm {
					if !vis[k] {
						keys = append(keys, k)
					}
				}
				sortVs(keys)
				if len(keys) > 0 {
					k := keys[0]
					v := mm[k]
					s := st
					if s.Iter[it] == nil {
						s.Iter[it] = map[*V]bool{}
					}
					s.Iter[it][k] = true
					outs = append(outs, Outcome{s, e.Tuple(e.Bool(true), k, v)})
					return outs
				}
				return []Outcome{{st, e.Tuple(e.Bool(false), e.Nil(), e.Nil())}}
			}
		}
	}
	s2 := st.Clone()
	k := e.Fresh(st, in, ctx, "key", false, itArgs(m)...)
	v := e.Fresh(st, in, ctx, "val", false, itArgs(m)...)
	return []Outcome{{st, e.Tuple(e.Bool(true), k, v)}, {s2, e.Tuple(e.Bool(false), e.Nil(), e.Nil())}}
}

func itArgs(m *V) []*V {
	if m == nil {
		return nil
	}
	return []*V{m}
}

func (e *Engine) typeAssert(st *State, in *ssa.TypeAssert, ctx int) []Outcome {
	x := e.eval(st, in.X)
	mk := func(s *State, v, ok *V) Outcome {
		if in.CommaOk {
			return Outcome{s, e.Tuple(v, ok)}
		}
		return Outcome{s, v}
	}
	if x.K == KIface && x.T != nil {
		if types.Identical(x.T, in.AssertedType) {
			return []Outcome{mk(st, x.Args[0], e.Bool(true))}
		}
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			if types.Implements(x.T, it) {
				return []Outcome{mk(st, x, e.Bool(true))}
			}
			if in.CommaOk {
				return []Outcome{mk(st, e.Nil(), e.Bool(false))}
			}
			return nil
		}
		if in.CommaOk {
			return []Outcome{mk(st, e.zero(in.AssertedType), e.Bool(false))}
		}
		return nil
	}
	name := "as:" + types.TypeString(in.AssertedType, nil)
	if in.CommaOk {
		s2 := st.Clone()
		return []Outcome{mk(st, e.Expr(name, x), e.Bool(true)), mk(s2, e.zero(in.AssertedType), e.Bool(false))}
	}
	return []Outcome{mk(st, e.Expr(name, x), nil)}
}

func (e *Engine) recv(st *State, ch *V, in ssa.Instruction, ctx int, commaOk, noData bool) []Outcome {
	if e.Hooks.Recv != nil {
		e.Hooks.Recv(e, st, ch, in)
	}
	if v, ok := st.Chan[ch]; ok {
		delete(st.Chan, ch)
		if commaOk {
			return []Outcome{{st, e.Tuple(v, e.Bool(true))}}
		}
		return []Outcome{{st, v}}
	}
	if ch.K == KExpr && ch.S == "ctxdone" {
		st.Facts[e.Expr("cancelled", ch.Args[0])] = True
	}
	v := e.Fresh(st, in, ctx, "recv", false, ch)
	if commaOk {
		s2 := st.Clone()
		e.heard(st, ch, noData)
		e.heard(s2, ch, true)
		return []Outcome{{st, e.Tuple(v, e.Bool(true))}, {s2, e.Tuple(e.Nil(), e.Bool(false))}}
	}
	e.heard(st, ch, true)
	return []Outcome{{st, v}}
}

func (e *Engine) sel(st *State, in *ssa.Select, ctx int) []Outcome {
	var outs []Outcome
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(s *State, idx int, ok *V, recvIdx int, v *V) {
		vs := []*V{e.Const(constant.MakeInt64(int64(idx))), ok}
		for i := 0; i < nrecv; i++ {
			if i == recvIdx {
				vs = append(vs, v)
			} else {
				vs = append(vs, e.Nil())
			}
		}
		outs = append(outs, Outcome{s, e.Tuple(vs...)})
	}
	ri := 0
	for i, c := range in.States {
		ch := e.eval(st, c.Chan)
		if c.Dir == types.RecvOnly {
			s := st.Clone()
			if IsBucket(c.Chan.Type()) {
				e.token(s, ch, in, true)
			}
			for _, o := range e.recv(s, ch, in, ctx, true, noData(c.Chan.Type())) {
				mk(o.St, i, o.Ret.Args[1], ri, o.Ret.Args[0])
			}
			ri++
			continue
		}
		s := st.Clone()
		if IsBucket(c.Chan.Type()) {
			e.token(s, ch, in, false)
		}
		v := e.eval(st, c.Send)
		if e.Hooks.Send != nil {
			e.Hooks.Send(e, s, ch, v, in)
		}
		if IsError(c.Send.Type()) {
			s.Chan[ch] = v
		}
		mk(s, i, e.Bool(false), -1, nil)
	}
	if !in.Blocking {
		mk(st.Clone(), -1, e.Bool(false), -1, nil)
	}
	return outs
}

var ProfSlots func(fn *ssa.Function, depth int, it func(func(b *ssa.BasicBlock, n int)), all func() []*State)
