package ai

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Relevance computes which functions have an effect the analysis tracks, closed over static calls
// and closure creation. Functions outside the set are treated as opaque.
type Relevance struct {
	own map[*ssa.Function]bool
	all map[*ssa.Function]bool
}

// HoldsFunc reports whether values of t can carry functions directly.
func HoldsFunc(t types.Type, depth int) bool {
	if depth > 3 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if HoldsFunc(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Pointer:
		return HoldsFunc(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if HoldsFunc(u.At(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// LockEffect is the basic predicate: lock operations and everything that moves functions around.
func LockEffect(in ssa.Instruction) bool {
	switch in := in.(type) {
	case ssa.CallInstruction:
		c := in.Common()
		if c.IsInvoke() {
			_, ok := lockOps[c.Method.FullName()]
			return ok
		}
		if f := c.StaticCallee(); f != nil {
			n := FullName(f)
			_, ok := lockOps[n]
			return ok || strings.HasPrefix(n, "(*sync.WaitGroup).")
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return false
		}
		return true // dynamic call
	case *ssa.Store:
		if _, isParam := in.Val.(*ssa.Parameter); isParam {
			return false
		}
		return carriesFunc(in.Val)
	case *ssa.Send:
		return IsBucket(in.Chan.Type())
	case *ssa.UnOp:
		return in.Op == token.ARROW && IsBucket(in.X.Type())
	case *ssa.Select:
		for _, s := range in.States {
			if IsBucket(s.Chan.Type()) {
				return true
			}
		}
	case *ssa.Return:
		for _, r := range in.Results {
			if carriesFunc(r) {
				return true
			}
		}
	}
	return false
}

// carriesFunc: the value may carry a function this analysis has to see. Closures made on the spot
// are covered by the call graph edge to their body.
func carriesFunc(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeClosure, *ssa.Function, *ssa.Const:
		return false
	case *ssa.ChangeType:
		return carriesFunc(v.X)
	}
	return HoldsFunc(v.Type(), 0)
}

// NewRelevance computes the closure over fns.
func NewRelevance(fns []*ssa.Function, interesting func(ssa.Instruction) bool) *Relevance {
	r := &Relevance{own: map[*ssa.Function]bool{}, all: map[*ssa.Function]bool{}}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if interesting(in) {
					r.own[f] = true
				}
				switch in := in.(type) {
				case ssa.CallInstruction:
					if c := in.Common().StaticCallee(); c != nil {
						callees[f] = append(callees[f], c)
					}
				case *ssa.MakeClosure:
					callees[f] = append(callees[f], in.Fn.(*ssa.Function))
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						callees[f] = append(callees[f], fn)
					}
				}
			}
		}
		if r.own[f] {
			r.all[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for f, cs := range callees {
			if r.all[f] {
				continue
			}
			for _, c := range cs {
				if r.all[c] {
					r.all[f] = true
					ch = true
					break
				}
			}
		}
	}
	return r
}

// Has reports whether fn is relevant.
func (r *Relevance) Has(fn *ssa.Function) bool { return r.all[fn] }

// Count is the number of relevant functions.
func (r *Relevance) Count() int { return len(r.all) }
