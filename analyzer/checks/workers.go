package checks

import (
	"sync"

	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// workers knows the functions of which several instances run at the same time on behalf of one operation.
type workers struct {
	c *Ctx
	// loopGo: goroutine body -> the go statement in a loop that starts it; nil for callbacks.
	body map[*ssa.Function]*ssa.Go
	bind map[*ssa.FreeVar]ssa.Value
	mut  map[*ssa.Function]map[int]int
	mu   sync.Mutex // guards mut
}

func inCycle(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	// blocks on a cycle through b
	fwd := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		for _, s := range x.Succs {
			if !fwd[s] {
				fwd[s] = true
				walk(s)
			}
		}
	}
	walk(b)
	if !fwd[b] {
		return nil
	}
	out := map[*ssa.BasicBlock]bool{}
	var back func(x *ssa.BasicBlock)
	back = func(x *ssa.BasicBlock) {
		if out[x] || !fwd[x] {
			return
		}
		out[x] = true
		for _, p := range x.Preds {
			back(p)
		}
	}
	back(b)
	return out
}

func newWorkers(c *Ctx) *workers {
	w := &workers{c: c, body: map[*ssa.Function]*ssa.Go{}, bind: map[*ssa.FreeVar]ssa.Value{}, mut: map[*ssa.Function]map[int]int{}}
	for _, f := range c.P.Funcs {
		EachInstr(f, func(in ssa.Instruction) {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				for i, fv := range mc.Fn.(*ssa.Function).FreeVars {
					w.bind[fv] = mc.Bindings[i]
				}
			}
		})
	}
	fnOf := func(v ssa.Value) *ssa.Function {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		case *ssa.Function:
			return x
		}
		return nil
	}
	for _, f := range c.P.Funcs {
		EachInstr(f, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok && inCycle(g.Block()) != nil {
				if h := fnOf(g.Call.Value); h != nil {
					w.body[h] = g
				}
			}
		})
	}
	// callbacks run by such goroutines
	for again := true; again; {
		again = false
		for _, f := range c.P.Funcs {
			if !w.concurrent(f) {
				continue
			}
			EachInstr(f, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() {
					return
				}
				p, ok := w.origin(ci.Common().Value).(*ssa.Parameter)
				if !ok {
					return
				}
				idx := -1
				for i, q := range p.Parent().Params {
					if q == p {
						idx = i
					}
				}
				for _, cs := range c.callers[p.Parent()] {
					if idx < 0 || idx >= len(cs.Common().Args) {
						continue
					}
					if h := fnOf(cs.Common().Args[idx]); h != nil && !w.concurrent(h) {
						w.body[h] = nil
						again = true
					}
				}
			})
		}
	}
	return w
}

// concurrent: f is such a body or a closure inside one.
func (w *workers) concurrent(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if _, ok := w.body[f]; ok {
			return true
		}
	}
	return false
}

// origin follows captured variables, their single assignment and arguments of go statements.
func (w *workers) origin(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.FreeVar:
			b := w.bind[x]
			if b == nil {
				return v
			}
			v = b
		case *ssa.UnOp:
			a := w.origin(x.X)
			al, ok := a.(*ssa.Alloc)
			if !ok {
				return v
			}
			var st ssa.Value
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					st = s.Val
					n++
				}
			}
			if n != 1 {
				return a
			}
			v = st
		case *ssa.Parameter:
			g := w.body[x.Parent()]
			if g == nil {
				return v
			}
			for i, q := range x.Parent().Params {
				if q == x && i < len(g.Call.Args) {
					v = g.Call.Args[i]
				}
			}
			if v == x {
				return v
			}
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// shared: the instances of the body f runs in all see the same v.
func (w *workers) shared(f *ssa.Function, v ssa.Value) bool {
	var top *ssa.Function
	var g *ssa.Go
	for x := f; x != nil; x = x.Parent() {
		if h, ok := w.body[x]; ok {
			top, g = x, h
		}
	}
	if top == nil {
		return false
	}
	in, ok := v.(ssa.Instruction)
	var owner *ssa.Function
	if ok {
		owner = in.Parent()
	} else if p, ok2 := v.(*ssa.Parameter); ok2 {
		owner = p.Parent()
	} else {
		return false
	}
	// created inside the body: private
	for x := owner; x != nil; x = x.Parent() {
		if x == top {
			return false
		}
	}
	if g == nil {
		return true
	}
	if owner == g.Parent() && ok {
		return !inCycle(g.Block())[in.Block()]
	}
	return true
}

// What a function changes through a parameter.
const (
	changesElems = 1 << iota // elements of the slice or map passed
	changesVar               // the variable a pointer to which is passed
)

// mutates: what f changes of the slices and maps it is given, directly or behind a pointer.
func (w *workers) mutates(f *ssa.Function) map[int]int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.mutatesLocked(f)
}

func (w *workers) mutatesLocked(f *ssa.Function) map[int]int {
	if m, ok := w.mut[f]; ok {
		return m
	}
	m := map[int]int{}
	w.mut[f] = m
	for i, p := range f.Params {
		if isCollection(p.Type()) {
			m[i] = w.changes(f, p, nil)
		} else if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isCollection(pt.Elem()) {
			m[i] = w.changes(f, nil, p)
		}
	}
	return m
}

func isCollection(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

var sorters = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "sort.Strings": true,
	"sort.Ints": true, "sort.Float64s": true}

// changes follows a collection val (or the one in the variable cell points to) through f and the closures in it.
func (w *workers) changes(f *ssa.Function, val, cell ssa.Value) int {
	vals, cells := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	if val != nil {
		vals[val] = true
	}
	if cell != nil {
		cells[cell] = true
	}
	fns := []*ssa.Function{f}
	for i := 0; i < len(fns); i++ {
		fns = append(fns, fns[i].AnonFuncs...)
	}
	for again := true; again; {
		again = false
		add := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				again = true
			}
		}
		for _, g := range fns {
			EachInstr(g, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.Alloc); ok && vals[x.Val] {
						add(cells, x.Addr)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && cells[x.X] {
						add(vals, x)
					}
				case *ssa.Slice:
					if vals[x.X] {
						add(vals, x)
					}
				case *ssa.ChangeType:
					if vals[x.X] {
						add(vals, x)
					}
				case *ssa.MakeInterface:
					if vals[x.X] {
						add(vals, x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if vals[e] {
							add(vals, x)
						}
					}
				case *ssa.MakeClosure:
					for i, b := range x.Bindings {
						if cells[b] {
							add(cells, x.Fn.(*ssa.Function).FreeVars[i])
						}
						if vals[b] {
							add(vals, x.Fn.(*ssa.Function).FreeVars[i])
						}
					}
				}
			})
		}
	}
	elemOf := func(a ssa.Value) bool {
		idx := false
		for {
			switch x := a.(type) {
			case *ssa.IndexAddr:
				idx = true
				a = x.X
			case *ssa.FieldAddr:
				a = x.X
			default:
				return idx && vals[a]
			}
		}
	}
	n := 0
	for _, g := range fns {
		EachInstr(g, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if elemOf(x.Addr) {
					n |= changesElems
				}
				if cell != nil && x.Addr == cell {
					// writing back what was read changes nothing
					if u, ok := x.Val.(*ssa.UnOp); !ok || u.X != cell {
						n |= changesVar
					}
				}
			case *ssa.MapUpdate:
				if vals[x.Map] {
					n |= changesElems
				}
			case ssa.CallInstruction:
				cm := x.Common()
				if b, ok := cm.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy", "delete", "clear":
						if vals[cm.Args[0]] {
							n |= changesElems
						}
					case "append":
						if sl, ok := cm.Args[0].(*ssa.Slice); ok && sl.High != nil && sl.Max == nil && vals[sl] {
							n |= changesElems
						}
					}
					return
				}
				h := cm.StaticCallee()
				if h == nil {
					return
				}
				if sorters[h.String()] || strings.HasPrefix(h.String(), "slices.Sort") || strings.HasPrefix(h.String(), "slices.Reverse") {
					if len(cm.Args) > 0 && vals[cm.Args[0]] {
						n |= changesElems
					}
					return
				}
				if len(h.Blocks) == 0 || w.c.P.SPkg[PkgPath(h)] == nil {
					return
				}
				for j, a := range cm.Args {
					if vals[a] && w.mutatesLocked(h)[j]&changesElems != 0 || cells[a] && w.mutatesLocked(h)[j]&changesElems != 0 {
						n |= changesElems
					}
					if cell != nil && a == cell && w.mutatesLocked(h)[j]&changesVar != 0 {
						n |= changesVar
					}
				}
			}
		})
	}
	return n
}
