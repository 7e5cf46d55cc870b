package ai

import "golang.org/x/tools/go/ssa"

// FreshSym returns a named opaque value that is never nil.
func (e *Engine) FreshSym(name string) *V {
	v := e.in.mk(KSym, name, false, nil, nil)
	v.NonNil = true
	return v
}

// Hash of a value.
func (v *V) Hash() uint64 { return v.h }

// RegHash identifies a register.
func (e *Engine) RegHash(reg ssa.Value) uint64 { return mix(uint64(e.regID(reg)) + 77) }

// Eval is what the register holds in the state.
func (e *Engine) Eval(st *State, v ssa.Value) *V { return e.eval(st, v) }
