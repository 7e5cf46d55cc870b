package ai

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FieldRef names a field of a struct type, or "*" for stores through pointers to the type.
type FieldRef struct{ T, F string }

// ModSets is a transitive may-write summary per function.
type ModSets struct {
	m map[*ssa.Function]map[FieldRef]bool
}

// Of returns the summary of fn.
func (m *ModSets) Of(fn *ssa.Function) map[FieldRef]bool { return m.m[fn] }

func fieldRefOf(a *ssa.FieldAddr) FieldRef {
	t := a.X.Type().Underlying().(*types.Pointer).Elem()
	return FieldRef{t.String(), fieldName(a.X.Type(), a.Field)}
}

func addrRefs(v ssa.Value, out map[FieldRef]bool) {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		out[fieldRefOf(v)] = true
	case *ssa.Alloc:
	default:
		if p, ok := v.Type().Underlying().(*types.Pointer); ok {
			t := p.Elem()
			if s := structOf(t); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					out[FieldRef{t.String(), s.Field(i).Name()}] = true
				}
			} else {
				out[FieldRef{t.String(), "*"}] = true
			}
		}
	}
}

// NewModSets computes may-write sets, closed over static calls and closures.
func NewModSets(fns []*ssa.Function) *ModSets {
	m := &ModSets{m: map[*ssa.Function]map[FieldRef]bool{}}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		own := map[FieldRef]bool{}
		live := liveBlocks(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					addrRefs(in.Addr, own)
				case ssa.CallInstruction:
					c := in.Common().StaticCallee()
					if c != nil && len(c.Blocks) > 0 {
						callees[f] = append(callees[f], c)
						continue
					}
					name := ""
					if c != nil {
						name = FullName(c)
					} else if in.Common().IsInvoke() {
						name = in.Common().Method.FullName()
					}
					if isLogName(name) || lockOps[name] != "" {
						continue
					}
					for _, a := range in.Common().Args {
						if _, ok := a.(*ssa.FieldAddr); ok {
							addrRefs(a, own)
						}
					}
				case *ssa.MakeClosure:
					callees[f] = append(callees[f], in.Fn.(*ssa.Function))
				}
			}
		}
		m.m[f] = own
	}
	for ch := true; ch; {
		ch = false
		for f, cs := range callees {
			for _, c := range cs {
				for r := range m.m[c] {
					if !m.m[f][r] {
						m.m[f][r] = true
						ch = true
					}
				}
			}
		}
	}
	return m
}

// liveBlocks are the blocks that constant conditions do not rule out.
func liveBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if len(b.Instrs) > 0 {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if c, ok := i.Cond.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
					if constant.BoolVal(c.Value) {
						visit(b.Succs[0])
					} else {
						visit(b.Succs[1])
					}
					return
				}
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	if len(f.Blocks) > 0 {
		visit(f.Blocks[0])
	}
	if f.Recover != nil {
		visit(f.Recover)
	}
	return live
}

// NewVolatile collects the fields of basic type that are written other than when the object is
// built: another goroutine may change them at any time.
func NewVolatile(fns []*ssa.Function) map[FieldRef]bool {
	m := map[FieldRef]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := st.Val.Type().Underlying().(*types.Basic); !ok {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				m[fieldRefOf(fa)] = true
			}
		}
	}
	return m
}
