package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FieldFns maps function-valued struct fields to the functions stored in them anywhere in the
// program (nil when some stored function is not known).
type FieldFns map[FieldRef][]ssa.Value

// NewFieldFns collects stores of functions to fields.
func NewFieldFns(fns []*ssa.Function) FieldFns {
	m := FieldFns{}
	bad := map[FieldRef]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := st.Val.Type().Underlying().(*types.Signature); !ok {
					continue
				}
				r := fieldRefOf(fa)
				v := st.Val
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				switch v := v.(type) {
				case *ssa.MakeClosure, *ssa.Function:
					m[r] = append(m[r], v)
				case *ssa.Const:
				default:
					bad[r] = true
				}
			}
		}
	}
	for r := range bad {
		delete(m, r)
	}
	for r, l := range m {
		if len(l) > 3 {
			delete(m, r)
		}
	}
	return m
}

// fieldCandidates are the function values an unknown load of a field may yield.
func (e *Engine) fieldCandidates(fnv *V) []*V {
	if e.FieldFns == nil || fnv.K != KDeref || fnv.Args[0].K != KField || fnv.Args[0].T == nil {
		return nil
	}
	fa := fnv.Args[0]
	base := fa.Args[0]
	var out []*V
	for _, c := range e.FieldFns[FieldRef{fa.T.String(), fa.S}] {
		switch c := c.(type) {
		case *ssa.Function:
			out = append(out, e.in.mk(KFn, c.String(), false, c, nil))
		case *ssa.MakeClosure:
			fn := c.Fn.(*ssa.Function)
			var bs []*V
			for _, fv := range fn.FreeVars {
				p, ok := fv.Type().Underlying().(*types.Pointer)
				if ok && types.Identical(p.Elem(), fa.T) {
					bs = append(bs, base)
					continue
				}
				v := e.Param("free:" + fv.Name())
				v.NonNil = true
				bs = append(bs, v)
			}
			out = append(out, e.in.mk(KFn, fn.String(), false, fn, nil, bs...))
		}
	}
	return out
}
