package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

// cancelling decides that the context of an operation reaches everything done for it.
type cancelling struct {
	c    *Ctx
	r    *Result
	ctx  *types.Interface
	rets map[*ssa.Function][]map[string]bool
	busy map[*ssa.Function]bool
	made map[*ssa.Function]*ssa.MakeClosure
}

// detachedOnPurpose lists calls that continue when the request is cancelled, and why.
var detachedOnPurpose = map[string]string{
	"(*api.MultilistController).Restore > (*backup.RestoreInfo).Restore": "an interrupted restore would leave lists deleted and not restored; it ends with the server only",
}

func newCancelling(c *Ctx, r *Result) *cancelling {
	s := &cancelling{c: c, r: r, rets: map[*ssa.Function][]map[string]bool{}, busy: map[*ssa.Function]bool{}, made: map[*ssa.Function]*ssa.MakeClosure{}}
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "context" {
			if t := p.Type("Context"); t != nil {
				s.ctx = t.Type().Underlying().(*types.Interface)
			}
		}
	}
	if s.ctx == nil {
		return nil
	}
	for _, f := range c.P.Funcs {
		EachInstr(f, func(in ssa.Instruction) {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				s.made[mc.Fn.(*ssa.Function)] = mc
			}
		})
	}
	return s
}

func (s *cancelling) isCtx(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return false
	}
	return types.Implements(t, s.ctx)
}

// has: the function gets a context, or is written inside one that does.
func (s *cancelling) has(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		for _, p := range f.Params {
			if s.isCtx(p.Type()) {
				return true
			}
		}
	}
	return false
}

// masked: a type of the module that implements Done itself.
func (s *cancelling) masked(t types.Type) bool {
	ms := types.NewMethodSet(t)
	sel := ms.Lookup(nil, "Done")
	if sel == nil || len(sel.Index()) != 1 {
		return false
	}
	f, ok := sel.Obj().(*types.Func)
	return ok && f.Pkg() != nil && strings.HasPrefix(f.Pkg().Path(), load.ModPath) && !types.IsInterface(sel.Recv())
}

type origins struct {
	s    *cancelling
	seen map[ssa.Value]bool
	out  map[string]bool
}

func (s *cancelling) origin(v ssa.Value) map[string]bool {
	o := &origins{s: s, seen: map[ssa.Value]bool{}, out: map[string]bool{}}
	o.walk(v)
	return o.out
}

func (o *origins) walk(v ssa.Value) {
	if o.seen[v] {
		return
	}
	o.seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		o.out["given"] = true
	case *ssa.FreeVar:
		f := x.Parent()
		mc := o.s.made[f]
		if mc == nil {
			o.out["?"] = true
			return
		}
		for i, fv := range f.FreeVars {
			if fv == x {
				o.walk(mc.Bindings[i])
			}
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if o.ifNil(x, i) {
				continue
			}
			o.walk(e)
		}
	case *ssa.MakeInterface:
		if o.s.masked(x.X.Type()) {
			o.out["detached"] = true
			return
		}
		o.walk(x.X)
	case *ssa.ChangeInterface:
		o.walk(x.X)
	case *ssa.ChangeType:
		o.walk(x.X)
	case *ssa.TypeAssert:
		o.walk(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			o.call(c, x.Index)
			return
		}
		o.walk(x.Tuple)
	case *ssa.Call:
		o.call(x, 0)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			o.load(x.X)
		}
	case *ssa.Alloc:
		o.load(x)
	case *ssa.FieldAddr:
		o.load(x)
	case *ssa.Field:
		o.walk(x.X)
	default:
		o.out["?"] = true
	}
}

// ifNil: edge i of the phi is only taken when there was no context.
func (o *origins) ifNil(x *ssa.Phi, i int) bool {
	b := x.Block().Preds[i]
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		in, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := in.Cond.(*ssa.BinOp)
		if !ok || !o.s.isCtx(bo.X.Type()) {
			continue
		}
		if bo.Op == token.EQL && p.Succs[0] == d || bo.Op == token.NEQ && p.Succs[1] == d {
			return true
		}
	}
	return false
}

func (o *origins) load(p ssa.Value) {
	switch x := p.(type) {
	case *ssa.Alloc:
		n := 0
		refs := *x.Referrers()
		for _, r := range refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == x {
					n++
					o.walk(r.Val)
				}
			case *ssa.MakeClosure:
				// stores through the captured variable
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == x {
						for _, q := range *f.FreeVars[i].Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Addr == f.FreeVars[i] {
								n++
								o.walk(st.Val)
							}
						}
					}
				}
			}
		}
		// a struct with an embedded context
		for _, r := range refs {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, q := range *fa.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == fa && o.s.isCtx(st.Val.Type()) {
						n++
						o.walk(st.Val)
					}
				}
			}
		}
		if n == 0 {
			o.out["?"] = true
		}
	case *ssa.FieldAddr:
		// the context inside a context
		if t := x.X.Type(); o.s.isCtx(t) {
			o.walk(x.X)
			return
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == x.Field {
					for _, q := range *fa.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
							n++
							o.walk(st.Val)
						}
					}
				}
			}
			if n > 0 {
				return
			}
		}
		o.out["?"] = true
	case *ssa.FreeVar:
		o.walk(x)
	case *ssa.Global:
		o.out["global"] = true
	default:
		o.out["?"] = true
	}
}

func (o *origins) call(c *ssa.Call, idx int) {
	com := &c.Call
	f := com.StaticCallee()
	if f != nil {
		switch f.String() {
		case "context.Background", "context.TODO", "context.WithoutCancel":
			o.out["detached"] = true
			return
		}
		if strings.HasPrefix(PkgPath(f), load.ModPath) && len(f.Blocks) > 0 {
			for k := range o.s.summary(f, idx) {
				if strings.HasPrefix(k, "param:") {
					for i, a := range com.Args {
						if k == fmt.Sprint("param:", i) {
							o.walk(a)
						}
					}
				} else {
					o.out[k] = true
				}
			}
			return
		}
	}
	n := 0
	for _, a := range com.Args {
		if o.s.isCtx(a.Type()) {
			n++
			o.walk(a)
		}
	}
	if com.IsInvoke() && o.s.isCtx(com.Value.Type()) {
		n++
		o.walk(com.Value)
	}
	if n == 0 {
		o.out["?"] = true
	}
}

// summary says where result idx of f comes from.
func (s *cancelling) summary(f *ssa.Function, idx int) map[string]bool {
	if s.busy[f] {
		return nil
	}
	if r := s.rets[f]; r != nil && idx < len(r) && r[idx] != nil {
		return r[idx]
	}
	s.busy[f] = true
	defer delete(s.busy, f)
	out := map[string]bool{}
	EachInstr(f, func(in ssa.Instruction) {
		r, ok := in.(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			return
		}
		o := &origins{s: s, seen: map[ssa.Value]bool{}, out: map[string]bool{}}
		// parameters are told apart
		o.walk(r.Results[idx])
		for k := range o.out {
			if k != "given" {
				out[k] = true
			}
		}
		for v := range o.seen {
			if p, ok := v.(*ssa.Parameter); ok && p.Parent() == f {
				for i, q := range f.Params {
					if q == p {
						out[fmt.Sprint("param:", i)] = true
					}
				}
			}
		}
		if o.out["given"] {
			out["given"] = true
		}
	})
	if s.rets[f] == nil {
		s.rets[f] = make([]map[string]bool, f.Signature.Results().Len())
	}
	s.rets[f][idx] = out
	return out
}

// quiet: the call does no work that could be cancelled.
func quietCtxUse(com *ssa.CallCommon) bool {
	f := com.StaticCallee()
	var pkg, name string
	if f != nil {
		pkg, name = PkgPath(f), f.Name()
	} else if com.IsInvoke() && com.Method.Pkg() != nil {
		pkg, name = com.Method.Pkg().Path(), com.Method.Name()
	}
	if pkg == "context" || strings.Contains(pkg, "/log") {
		return true
	}
	return strings.HasPrefix(name, "With") || strings.HasPrefix(name, "Context") || strings.HasPrefix(name, "New") && f != nil && s0ctxOnly(f)
}

// s0ctxOnly: the function makes a context.
func s0ctxOnly(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && strings.HasSuffix(r.At(0).Type().String(), "context.Context")
}

func (s *cancelling) calls() {
	// functions that work for an operation with a context although they have none themselves
	var withCtx []*ssa.Function
	for _, f := range s.c.P.Funcs {
		if s.has(f) {
			withCtx = append(withCtx, f)
		}
	}
	work := map[*ssa.Function]bool{}
	for _, f := range withCtx {
		work[f] = true
	}
	for q := withCtx; len(q) > 0; {
		f := q[0]
		q = q[1:]
		EachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if _, ok := in.(*ssa.Go); ok {
				return // background work of its own
			}
			g := ci.Common().StaticCallee()
			if g == nil || work[g] || !strings.HasPrefix(PkgPath(g), load.ModPath) || g.Name() == "init" || strings.HasPrefix(g.Name(), "New") {
				return
			}
			work[g] = true
			q = append(q, g)
			for _, a := range g.AnonFuncs {
				if !work[a] {
					work[a] = true
					q = append(q, a)
				}
			}
		})
	}
	var fns []*ssa.Function
	for f := range work {
		if p := PkgPath(f); strings.HasPrefix(p, load.ModPath) && !strings.Contains(p, "/api/client") && !strings.Contains(p, "/api/tool") && !strings.HasSuffix(p, "/test") {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		s.r.Inc("functions_with_a_context", 1)
		EachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			com := ci.Common()
			for _, a := range com.Args {
				if !s.isCtx(a.Type()) {
					continue
				}
				if quietCtxUse(com) {
					s.r.Inc("context_only_calls", 1)
					continue
				}
				o := s.origin(a)
				s.r.Inc("contexts_passed_on", 1)
				if o["?"] || o["global"] {
					s.r.Inc("contexts_from_elsewhere", 1)
					s.r.Samples = append(s.r.Samples, fmt.Sprintf("%s %s: context of %s is not the operation's own", s.c.Pos(in.Pos()), Short(f), calleeName(com)))
				}
				if why := detachedOnPurpose[Short(TopFn(f))+" > "+calleeName(com)]; why != "" {
					s.r.Inc("detached_on_purpose", 1)
					continue
				}
				if o["detached"] || o["global"] && s.has(f) {
					s.r.Add(Finding{Rule: "context-dropped", Key: "dropped|" + Short(TopFn(f)) + "|" + calleeName(com), Pos: s.c.Pos(in.Pos()),
						Msg: fmt.Sprintf("%s calls %s with a context that does not come from its own, so cancelling the operation does not reach it", Short(f), calleeName(com))})
				}
			}
		})
	}
}

func calleeName(com *ssa.CallCommon) string {
	if f := com.StaticCallee(); f != nil {
		return Short(f)
	}
	if com.IsInvoke() {
		return com.Method.Name()
	}
	return "a function value"
}

// early finds contexts that are used after they were cancelled.
func (s *cancelling) early() {
	for _, f := range s.c.P.Funcs {
		EachInstr(f, func(in ssa.Instruction) {
			mk, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			g := mk.Call.StaticCallee()
			if g == nil || PkgPath(g) != "context" || !strings.HasPrefix(g.Name(), "With") || g.Signature.Results().Len() != 2 {
				return
			}
			var ctx, cancel ssa.Value
			for _, r := range *mk.Referrers() {
				if e, ok := r.(*ssa.Extract); ok {
					if e.Index == 0 {
						ctx = e
					} else {
						cancel = e
					}
				}
			}
			s.r.Inc("derived_contexts", 1)
			if ctx == nil || cancel == nil || cancel.Referrers() == nil {
				return
			}
			for _, r := range *cancel.Referrers() {
				c, ok := r.(*ssa.Call)
				if !ok || c.Call.Value != cancel {
					continue
				}
				if u := s.usedAfter(c, mk, ctx); u != nil {
					s.r.Add(Finding{Rule: "used-after-cancel", Key: "after-cancel|" + Short(TopFn(f)), Pos: s.c.Pos(u.Pos()),
						Msg: fmt.Sprintf("%s uses a context it has already cancelled at %s", Short(f), s.c.Pos(c.Pos()))})
				}
			}
		})
	}
}

// usedAfter finds work started with ctx that can follow c without a new context being made.
func (s *cancelling) usedAfter(c, mk ssa.Instruction, ctx ssa.Value) ssa.Instruction {
	derived := map[ssa.Value]bool{ctx: true}
	for ch := true; ch; {
		ch = false
		for v := range derived {
			if v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				var d ssa.Value
				switch x := r.(type) {
				case *ssa.ChangeInterface:
					d = x
				case *ssa.Call:
					if s.isCtx(x.Type()) {
						d = x
					}
				}
				if d != nil && !derived[d] {
					derived[d] = true
					ch = true
				}
			}
		}
	}
	uses := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || quietCtxUse(ci.Common()) {
			return false
		}
		for _, a := range ci.Common().Args {
			if derived[a] {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, from int) ssa.Instruction {
		for _, in := range b.Instrs[from:] {
			if in == mk {
				return nil
			}
			if uses(in) {
				return in
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				if u := walk(n, 0); u != nil {
					return u
				}
			}
		}
		return nil
	}
	for i, in := range c.Block().Instrs {
		if in == c {
			return walk(c.Block(), i+1)
		}
	}
	return nil
}

// waits: waiting for an update token ends with the context.
func (s *cancelling) waits() {
	for _, f := range s.c.P.Funcs {
		if !s.has(f) {
			continue
		}
		EachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW && ai.IsBucket(x.X.Type()) {
					s.r.Inc("token_waits", 1)
					s.r.Add(Finding{Rule: "wait-ignores-cancel", Key: "wait|" + Short(f), Pos: s.c.Pos(x.Pos()), Msg: Short(f) + " waits for an update token and does not stop when the operation is cancelled"})
				}
			case *ssa.Select:
				tok, done := false, false
				for _, st := range x.States {
					if st.Dir == types.RecvOnly && ai.IsBucket(st.Chan.Type()) {
						tok = true
					}
					if c, ok := st.Chan.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Done" {
						if o := s.origin(c.Call.Value); !o["detached"] {
							done = true
						}
					} else if ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "Done" {
						done = true
					}
				}
				if tok && x.Blocking {
					s.r.Inc("token_waits", 1)
					if !done {
						s.r.Add(Finding{Rule: "wait-ignores-cancel", Key: "wait|" + Short(f), Pos: s.c.Pos(x.Pos()), Msg: Short(f) + " waits for an update token and does not stop when the operation is cancelled"})
					}
				}
			}
		})
	}
}

func init() {
	register("C12", "provenance of contexts over go/ssa, control-flow reachability", func(c *Ctx) *Result {
		r := NewResult()
		s := newCancelling(c, r)
		if s == nil {
			r.Note("package context not found")
			r.Floors["contexts_passed_on"] = 100
			return r
		}
		r.Explanation = "Every call in every function that has a context, or works for one that has, is examined. The context it passes on is traced to its origin through variables, captured variables, contexts derived from it, request contexts that embed one, and functions of the module that return contexts (by summary). Contexts made by WithCancel, WithTimeout and WithDeadline are followed along the control flow from each call of their cancel function to the next use. Waits for update tokens are examined for the case that ends them."
		r.Rules = []string{
			"context-dropped: a call is given context.Background, TODO, WithoutCancel, a type that hides Done, or the context of the server in a package variable, while the operation has a context",
			"used-after-cancel: work is started with a context that has been cancelled before on the same path",
			"wait-ignores-cancel: a wait for an update token does not end when the operation is cancelled",
		}
		r.Assumptions = append(r.Assumptions,
			"Calls of loggers and functions that only make contexts do no work that needs to be cancelled.",
			"Goroutines of services that are started without a context are not part of an operation.",
			"Stores and clients of other modules stop when their context is cancelled.")
		for k, why := range detachedOnPurpose {
			r.Notes = append(r.Notes, "not cancelled on purpose: "+k+": "+why)
		}
		r.Floors["contexts_passed_on"] = 300
		r.Floors["functions_with_a_context"] = 300
		r.Floors["token_waits"] = 1
		s.calls()
		s.early()
		s.waits()
		return r
	})
}
