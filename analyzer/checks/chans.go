package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// chanOp is an operation on a channel that one function made or received.
type chanOp struct {
	in    ssa.Instruction
	kind  string          // send, recv, close, try (a case of a select)
	site  ssa.Instruction // the instruction of the function under analysis it happens under
	async bool            // it happens in a goroutine
}

// chanFlow is where a channel goes.
type chanFlow struct {
	fn      *ssa.Function
	vals    map[ssa.Value]bool
	ops     []chanOp
	at      map[ssa.Instruction]string
	escapes map[ssa.Instruction]bool
	must    map[*ssa.Function]int
	cut     func(from *ssa.BasicBlock, succ int) bool
	busy    map[*ssa.Function]bool
	env     map[ssa.Value]ssa.Value // arguments of the functions being looked into
}

// closureUses follows a function value to the instructions that run it or pass it on.
func closureUses(v ssa.Value, seen map[ssa.Value]bool) []ssa.Instruction {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	var out []ssa.Instruction
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case ssa.CallInstruction:
			out = append(out, x)
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				for _, u := range *a.Referrers() {
					switch l := u.(type) {
					case *ssa.UnOp:
						out = append(out, closureUses(l, seen)...)
					case *ssa.MakeClosure:
						for i, b := range l.Bindings {
							if b == a {
								fv := l.Fn.(*ssa.Function).FreeVars[i]
								for _, fu := range *fv.Referrers() {
									if l, ok := fu.(*ssa.UnOp); ok {
										out = append(out, closureUses(l, seen)...)
									}
								}
							}
						}
					}
				}
			}
		case *ssa.Phi:
			out = append(out, closureUses(x, seen)...)
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					out = append(out, closureUses(x.Fn.(*ssa.Function).FreeVars[i], seen)...)
				}
			}
		}
	}
	return out
}

// flowOf follows the channel v through variables, closures, and functions of the module.
func (c *Ctx) flowOf(fn *ssa.Function, v ssa.Value) *chanFlow {
	f := &chanFlow{fn: fn, vals: map[ssa.Value]bool{}, at: map[ssa.Instruction]string{}, escapes: map[ssa.Instruction]bool{}, must: map[*ssa.Function]int{}, env: map[ssa.Value]ssa.Value{}, busy: map[*ssa.Function]bool{}}
	type item struct {
		v     ssa.Value
		cell  bool
		site  ssa.Instruction
		async bool
	}
	seen := map[item]bool{}
	var work []item
	push := func(i item) {
		if !seen[i] {
			seen[i] = true
			f.vals[i.v] = true
			work = append(work, i)
		}
	}
	push(item{v: v})
	op := func(i item, in ssa.Instruction, kind string) {
		s := i.site
		if s == nil {
			s = in
		}
		f.ops = append(f.ops, chanOp{in, kind, s, i.async})
		if f.at[in] == "" || kind == "close" {
			f.at[in] = kind
		}
	}
	enter := func(i item, in ssa.Instruction) item {
		n := i
		if n.site == nil {
			n.site = in
		}
		if _, ok := in.(*ssa.Go); ok {
			n.async = true
		}
		return n
	}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		if i.v.Referrers() == nil {
			continue
		}
		for _, in := range *i.v.Referrers() {
			switch x := in.(type) {
			case *ssa.DebugRef, *ssa.BinOp:
			case *ssa.Store:
				switch {
				case x.Addr == i.v:
				case i.cell:
					f.escapes[in] = true
				default:
					if a, ok := x.Addr.(*ssa.Alloc); ok {
						push(item{a, true, i.site, i.async})
					} else {
						f.escapes[in] = true
					}
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for k, b := range x.Bindings {
					if b != i.v {
						continue
					}
					for _, u := range closureUses(x, map[ssa.Value]bool{}) {
						n := i
						if u.Parent() == i.v.Parent() {
							n = enter(i, u)
						} else if _, ok := u.(*ssa.Go); ok {
							n.async = true
						}
						n.v = g.FreeVars[k]
						push(n)
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "close" {
						op(i, in, "close")
					}
					continue
				}
				g := calleeFn(cc)
				if g == nil || len(g.Blocks) == 0 || c.P.SPkg[PkgPath(g)] == nil {
					f.escapes[in] = true
					continue
				}
				for k, a := range cc.Args {
					if a == i.v && k < len(g.Params) {
						n := enter(i, in)
						n.v = g.Params[k]
						push(n)
					}
				}
			case *ssa.Send:
				if x.Chan == i.v {
					op(i, in, "send")
				} else {
					f.escapes[in] = true
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Chan == i.v {
						switch {
						case s.Dir == types.RecvOnly:
							op(i, in, "recv")
						case x.Blocking && len(x.States) == 1:
							op(i, in, "send")
						default:
							op(i, in, "try")
						}
					} else if s.Send == i.v {
						f.escapes[in] = true
					}
				}
			case *ssa.UnOp:
				switch {
				case x.Op == token.ARROW:
					op(i, in, "recv")
				case x.Op == token.MUL && i.cell:
					push(item{x, false, i.site, i.async})
				}
			case *ssa.Phi:
				push(item{x, i.cell, i.site, i.async})
			case *ssa.ChangeType:
				push(item{x, i.cell, i.site, i.async})
			default:
				f.escapes[in] = true
			}
		}
	}
	return f
}

func calleeFn(cc *ssa.CallCommon) *ssa.Function {
	if cc.IsInvoke() {
		return nil
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	if g := cc.StaticCallee(); g != nil {
		return g
	}
	return boundFn(cc.Value)
}

// boundFn is the closure that a variable assigned once holds.
func boundFn(v ssa.Value) *ssa.Function {
	switch x := resolveOnce(v, 0).(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	}
	return nil
}

// resolveOnce follows variables assigned once, captured variables and arguments of functions called once.
func resolveOnce(v ssa.Value, depth int) ssa.Value {
	if depth > 12 {
		return v
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return resolveOnce(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return v
		}
		a, ok := resolveOnce(x.X, depth+1).(*ssa.Alloc)
		if !ok || a.Referrers() == nil {
			return v
		}
		var val ssa.Value
		n := 0
		for _, in := range *a.Referrers() {
			switch s := in.(type) {
			case *ssa.Store:
				if s.Addr == a {
					val = s.Val
					n++
				}
			case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
			default:
				return v
			}
		}
		if n != 1 || writtenInClosures(a, map[ssa.Value]bool{}) {
			return v
		}
		return resolveOnce(val, depth+1)
	case *ssa.FreeVar:
		f := x.Parent()
		if mc := theClosure(f); mc != nil {
			for i, fv := range f.FreeVars {
				if fv == x {
					return resolveOnce(mc.Bindings[i], depth+1)
				}
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		if f.Parent() == nil {
			return v
		}
		var uses []ssa.Instruction
		if mc := theClosure(f); mc != nil {
			uses = closureUses(mc, map[ssa.Value]bool{})
		}
		if len(uses) == 1 {
			if ci, ok := uses[0].(ssa.CallInstruction); ok && calleeIs(ci.Common(), f) {
				for i, p := range f.Params {
					if p == x && i < len(ci.Common().Args) {
						return resolveOnce(ci.Common().Args[i], depth+1)
					}
				}
			}
		}
	}
	return v
}

func calleeIs(cc *ssa.CallCommon, f *ssa.Function) bool {
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		return mc.Fn == f
	}
	return cc.StaticCallee() == f
}

func writtenInClosures(cell ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[cell] || cell.Referrers() == nil {
		return false
	}
	seen[cell] = true
	for _, in := range *cell.Referrers() {
		switch x := in.(type) {
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == cell {
					fv := x.Fn.(*ssa.Function).FreeVars[i]
					for _, u := range *fv.Referrers() {
						switch s := u.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.MakeClosure:
							if writtenInClosures(fv, seen) {
								return true
							}
						default:
							_ = s
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// theClosure is the only place that makes the closure f.
func theClosure(f *ssa.Function) *ssa.MakeClosure {
	if f.Parent() == nil {
		return nil
	}
	var mc *ssa.MakeClosure
	n := 0
	EachInstr(f.Parent(), func(in ssa.Instruction) {
		if x, ok := in.(*ssa.MakeClosure); ok && x.Fn == f {
			mc = x
			n++
		}
	})
	if n != 1 {
		return nil
	}
	return mc
}

// condKey names a condition so that the same condition in a closure has the same name.
func condKey(v ssa.Value, env map[ssa.Value]ssa.Value, depth int) string {
	v = resolveOnce(v, 0)
	for i := 0; i < 8 && env[v] != nil; i++ {
		v = resolveOnce(env[v], 0)
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.BinOp:
		if depth < 6 {
			return "(" + condKey(x.X, env, depth+1) + x.Op.String() + condKey(x.Y, env, depth+1) + ")"
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && depth < 6 && (b.Name() == "len" || b.Name() == "cap") {
			return b.Name() + condKey(x.Call.Args[0], env, depth+1)
		}
	}
	return fmt.Sprintf("%p", v)
}

// discharges reports whether the instruction does one of the wanted operations on every path of what it runs.
func (f *chanFlow) discharges(in ssa.Instruction, kinds string) bool {
	if k := f.at[in]; k != "" && strings.Contains(kinds, k) {
		return true
	}
	if f.escapes[in] {
		return true
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		if g := calleeFn(ci.Common()); g != nil && f.touches(g) {
			if g.Parent() == nil {
				// What it does can depend on its arguments.
				for k, a := range ci.Common().Args {
					if k < len(g.Params) {
						f.env[g.Params[k]] = a
					}
				}
				delete(f.must, g)
			}
			return f.always(g, kinds)
		}
		// A closure that is handed to something that runs it.
		for _, a := range ci.Common().Args {
			if g := boundFn(a); g != nil && f.touches(g) {
				return true
			}
		}
	}
	return false
}

func (f *chanFlow) touches(g *ssa.Function) bool {
	for _, p := range g.Params {
		if f.vals[p] {
			return true
		}
	}
	for _, p := range g.FreeVars {
		if f.vals[p] {
			return true
		}
	}
	return false
}

// always reports whether no return of g is reached without one of the operations.
func (f *chanFlow) always(g *ssa.Function, kinds string) bool {
	if m := f.must[g]; m != 0 {
		return m == 1
	}
	f.must[g] = 2
	if len(g.Blocks) == 0 || f.busy[g] {
		return false
	}
	f.busy[g] = true
	defer delete(f.busy, g)
	end := f.reach(g.Blocks[0], 0, kinds, func(in ssa.Instruction) bool {
		_, ok := in.(*ssa.Return)
		return ok
	})
	if end == nil {
		f.must[g] = 1
		return true
	}
	return false
}

// reach finds an instruction that stop accepts and that can be reached without one of the operations.
func (f *chanFlow) reach(b *ssa.BasicBlock, i int, kinds string, stop func(ssa.Instruction) bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if stop(in) {
				return in
			}
			if f.discharges(in, kinds) {
				return nil
			}
		}
		for k, s := range b.Succs {
			if f.cut != nil && f.cut(b, k) || seen[s] {
				continue
			}
			seen[s] = true
			if in := walk(s, 0); in != nil {
				return in
			}
		}
		return nil
	}
	return walk(b, i)
}

// waits reports whether the function waits for a wait group, itself or in what it starts.
func waits(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	found := false
	EachInstr(g, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok && !found {
			if h := calleeFn(ci.Common()); h != nil {
				if strings.HasSuffix(h.String(), "sync.WaitGroup).Wait") {
					found = true
				} else if len(h.Blocks) > 0 && PkgPath(h) == PkgPath(g) && (h.Parent() != nil || takesWaitGroup(h)) {
					found = waits(h, seen)
				}
			}
		}
	})
	return found
}

func takesWaitGroup(g *ssa.Function) bool {
	for _, p := range g.Params {
		if strings.HasSuffix(p.Type().String(), "*sync.WaitGroup") {
			return true
		}
	}
	return false
}

// linForm splits an integer into what it counts from and a constant.
func linForm(v ssa.Value) (string, int64) {
	v = resolveOnce(v, 0)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.Value)
			return "", n
		}
	case *ssa.Convert:
		return linForm(x.X)
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			b, n := linForm(x.X)
			b2, m := linForm(x.Y)
			if x.Op == token.SUB {
				m = -m
			}
			if b2 == "" {
				return b, n + m
			}
			if b == "" && x.Op == token.ADD {
				return b2, n + m
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			if mc, ok := resolveOnce(x.Call.Args[0], 0).(*ssa.MakeChan); ok && b.Name() == "cap" {
				return linForm(mc.Size)
			}
			return b.Name() + pathKey(x.Call.Args[0]), 0
		}
	}
	return fmt.Sprintf("%p", v), 0
}

// pathKey names what is read: a field of a parameter has one name however often it is read.
func pathKey(v ssa.Value) string {
	v = resolveOnce(v, 0)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + pathKey(x.X)
		}
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", pathKey(x.X), x.Field)
	}
	return fmt.Sprintf("%p", v)
}

func after(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	for _, s := range b.Succs {
		if !seen[s] {
			seen[s] = true
			after(s, seen)
		}
	}
	return seen
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return 0
}

func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return a != b && indexIn(a) < indexIn(b)
	}
	return a.Block().Dominates(b.Block())
}

// boundedLoop reports whether the loop around b ends at a constant count.
func boundedLoop(b *ssa.BasicBlock) bool {
	cyc := inCycle(b)
	for x := range cyc {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok || cyc[x.Succs[0]] && cyc[x.Succs[1]] {
			continue
		}
		if cmp, ok := iff.Cond.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{cmp.X, cmp.Y} {
				if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
					return true
				}
			}
		}
	}
	return false
}

// fanChannels checks the channels that goroutines hand their results, tokens and answers over.
func (c *Ctx) fanChannels(r *Result) {
	for _, fn := range c.P.Funcs {
		if c.P.SPkg[PkgPath(fn)] == nil || c.Generated(TopFn(fn)) || len(fn.Blocks) == 0 {
			continue
		}
		EachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MakeChan:
				c.madeChannel(r, fn, x)
			case *ssa.UnOp:
				if x.Op == token.ARROW && replyType(x.X.Type()) {
					c.replyTaken(r, fn, x, nil)
				}
			case *ssa.Select:
				for k, s := range x.States {
					if s.Dir == types.RecvOnly && replyType(s.Chan.Type()) {
						c.replySelected(r, fn, x, k)
					}
				}
			}
		})
	}
}

func replyType(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	el, ok := ch.Elem().Underlying().(*types.Chan)
	return ok && el.Dir() != types.RecvOnly
}

func (c *Ctx) madeChannel(r *Result, fn *ssa.Function, mk *ssa.MakeChan) {
	f := c.flowOf(fn, mk)
	if len(f.escapes) > 0 {
		return
	}
	var sends, recvs, closes []chanOp
	for _, o := range f.ops {
		switch o.kind {
		case "send":
			sends = append(sends, o)
		case "recv":
			recvs = append(recvs, o)
		case "close":
			closes = append(closes, o)
		}
	}
	var waitAt []ssa.Instruction
	var adds []*ssa.CallCommon
	EachInstr(fn, func(in ssa.Instruction) {
		x, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		g := calleeFn(x.Common())
		if g == nil {
			return
		}
		switch {
		case strings.HasSuffix(g.String(), "sync.WaitGroup).Add"):
			adds = append(adds, x.Common())
		case strings.HasSuffix(g.String(), "sync.WaitGroup).Wait"), len(g.Blocks) > 0 && c.P.SPkg[PkgPath(g)] != nil && (takesWaitGroup(g) || g.Parent() != nil) && waits(g, map[*ssa.Function]bool{}):
			waitAt = append(waitAt, in)
		}
	})
	r.Inc("channels_followed", 1)
	name := Short(TopFn(fn))
	// Room for what is collected after the wait.
	for _, s := range sends {
		if !s.async || s.site.Parent() != fn {
			continue
		}
		var w ssa.Instruction
		for _, x := range waitAt {
			if s.site.Block() == x.Block() && indexIn(s.site) < indexIn(x) || after(s.site.Block(), map[*ssa.BasicBlock]bool{})[x.Block()] {
				w = x
			}
		}
		if w == nil {
			continue
		}
		concurrent := false
		for _, rv := range recvs {
			if _, ok := rv.site.(*ssa.Defer); ok {
				continue
			}
			late := false
			for _, x := range waitAt {
				late = late || precedes(x, rv.site)
			}
			concurrent = concurrent || rv.async || !late
		}
		if concurrent {
			continue
		}
		r.Inc("collected_after_wait", 1)
		base, n := linForm(mk.Size)
		loop := inCycle(s.site.Block())
		many := len(loop) > 0 && !loop[mk.Block()] && !boundedLoop(s.site.Block())
		bad := false
		if base == "" {
			bad = many || n == 0
		} else if len(adds) == 1 && many {
			ab, an := linForm(adds[0].Args[1])
			bad = ab == base && an > n
		}
		if bad {
			r.Add(Finding{Rule: "no-room-for-results", Key: "no-room|" + name, Pos: c.Pos(mk.Pos()),
				Msg: fmt.Sprintf("%s waits at %s for goroutines that send to a channel which is only read after that, and which has no room for what all of them send", name, c.Pos(w.Pos()))})
		}
	}
	// Ranged over, but nobody closes it.
	if len(closes) == 0 {
		for _, rv := range recvs {
			if x, ok := rv.in.(*ssa.UnOp); ok && x.CommaOk && !rv.async && endsOnlyWhenClosed(x) {
				r.Add(Finding{Rule: "never-closed", Key: "never-closed|" + name, Pos: c.Pos(rv.in.Pos()), Msg: name + " reads a channel until it is closed, but nothing closes it"})
			}
		}
	}
	// Tokens taken for each goroutine.
	for _, a := range f.ops {
		if a.async || a.in.Parent() != fn || a.kind != "recv" && a.kind != "send" {
			continue
		}
		if el, ok := mk.Type().Underlying().(*types.Chan).Elem().Underlying().(*types.Struct); !ok || el.NumFields() != 0 {
			continue
		}
		back := "send try"
		if a.kind == "send" {
			back = "recv"
		}
		cyc := inCycle(a.in.Block())
		var gos []*ssa.Go
		for x := range cyc {
			for _, in := range x.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if h := calleeFn(g.Common()); h != nil && f.touches(h) {
						for _, o := range f.ops {
							if o.async && o.site == in && strings.Contains(back, o.kind) {
								gos = append(gos, g)
								break
							}
						}
					}
				}
			}
		}
		if len(gos) == 0 {
			continue
		}
		// The same condition guards taking and returning.
		guard := map[string]bool{}
		for _, b := range fn.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for k, s := range b.Succs {
				if len(s.Preds) == 1 && s.Dominates(a.in.Block()) {
					guard[condKey(iff.Cond, f.env, 0)] = k == 0
				}
			}
		}
		f.must = map[*ssa.Function]int{}
		f.cut = func(from *ssa.BasicBlock, succ int) bool {
			iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			want, ok := guard[condKey(iff.Cond, f.env, 0)]
			return ok && want != (succ == 0)
		}
		r.Inc("token_loops_checked", 1)
		for _, g := range gos {
			if !f.always(calleeFn(g.Common()), back) {
				r.Add(Finding{Rule: "token-kept", Key: "token-kept|" + name, Pos: c.Pos(g.Pos()),
					Msg: fmt.Sprintf("a goroutine of %s can end without giving back the token taken for it at %s, so the loop that starts the others stops for good", name, c.Pos(a.in.Pos()))})
			}
		}
		goes := map[ssa.Instruction]bool{}
		for _, g := range gos {
			goes[g] = true
		}
		f.must = map[*ssa.Function]int{}
		lost := f.reach(a.in.Block(), indexIn(a.in)+1, back, func(in ssa.Instruction) bool {
			return in == a.in
		})
		_ = goes
		if lost != nil && !f.passesGo(a.in, goes) {
			r.Add(Finding{Rule: "token-kept", Key: "token-kept|" + name, Pos: c.Pos(a.in.Pos()),
				Msg: fmt.Sprintf("%s can take a token and go on to the next item without starting what gives it back", name)})
		}
		f.cut = nil
	}
}

// passesGo reports whether every way from the taking back to itself starts one of the goroutines.
func (f *chanFlow) passesGo(a ssa.Instruction, goes map[ssa.Instruction]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if goes[in] || f.at[in] != "" && f.at[in] != f.at[a] {
				return true
			}
			if in == a {
				return false
			}
		}
		for k, s := range b.Succs {
			if f.cut(b, k) || seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	return walk(a.Block(), indexIn(a)+1)
}

// endsOnlyWhenClosed: the loop around the receive is only left when the channel is closed.
func endsOnlyWhenClosed(x *ssa.UnOp) bool {
	cyc := inCycle(x.Block())
	if len(cyc) == 0 {
		return false
	}
	for b := range cyc {
		for _, s := range b.Succs {
			if cyc[s] {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			ex, ok := iff.Cond.(*ssa.Extract)
			if !ok || ex.Tuple != x || ex.Index != 1 {
				return false
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
	}
	return true
}

func (c *Ctx) replySelected(r *Result, fn *ssa.Function, sel *ssa.Select, k int) {
	// The value received by case k, and the block of that case.
	var val ssa.Value
	n := 2
	for i := 0; i < k; i++ {
		if sel.States[i].Dir == types.RecvOnly {
			n++
		}
	}
	var body *ssa.BasicBlock
	for _, in := range *sel.Referrers() {
		ex, ok := in.(*ssa.Extract)
		if !ok {
			continue
		}
		if ex.Index == n {
			val = ex
		}
		if ex.Index == 0 {
			for _, u := range *ex.Referrers() {
				if cmp, ok := u.(*ssa.BinOp); ok && cmp.Op == token.EQL {
					if _, v := linForm(cmp.Y); int(v) == k {
						for _, w := range *cmp.Referrers() {
							if iff, ok := w.(*ssa.If); ok {
								body = iff.Block().Succs[0]
							}
						}
					}
				}
			}
		}
	}
	if body == nil && len(sel.States) == 1 {
		body = sel.Block()
	}
	if body == nil {
		return
	}
	c.reply(r, fn, sel, val, body, 0)
}

func (c *Ctx) replyTaken(r *Result, fn *ssa.Function, rv *ssa.UnOp, _ *ssa.BasicBlock) {
	var val ssa.Value = rv
	if rv.CommaOk {
		val = nil
		for _, in := range *rv.Referrers() {
			if ex, ok := in.(*ssa.Extract); ok && ex.Index == 0 {
				val = ex
			}
		}
	}
	c.reply(r, fn, rv, val, rv.Block(), indexIn(rv)+1)
}

// reply: whoever asked waits until the channel it sent is closed or answered.
func (c *Ctx) reply(r *Result, fn *ssa.Function, at ssa.Instruction, val ssa.Value, b *ssa.BasicBlock, i int) {
	r.Inc("reply_channels_checked", 1)
	f := &chanFlow{fn: fn, at: map[ssa.Instruction]string{}, escapes: map[ssa.Instruction]bool{}, must: map[*ssa.Function]int{}, env: map[ssa.Value]ssa.Value{}, busy: map[*ssa.Function]bool{}}
	if val != nil {
		f = c.flowOf(fn, val)
	}
	f.cut = func(from *ssa.BasicBlock, succ int) bool {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		switch x := iff.Cond.(type) {
		case *ssa.Extract: // not received
			v, ok := at.(ssa.Value)
			return ok && x.Tuple == v && x.Index == 1 && succ == 1
		case *ssa.BinOp: // nil
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if k, ok := o[1].(*ssa.Const); ok && k.IsNil() && f.vals[o[0]] {
					return (x.Op == token.EQL) == (succ == 0)
				}
			}
		}
		return false
	}
	end := f.reach(b, i, "close send", func(in ssa.Instruction) bool {
		_, ok := in.(*ssa.Return)
		return ok || in == at
	})
	if end != nil {
		name := Short(TopFn(fn))
		r.Add(Finding{Rule: "never-answered", Key: "never-answered|" + name, Pos: c.Pos(at.Pos()),
			Msg: fmt.Sprintf("%s can go on to %s without closing the channel it was sent, so what asked waits for good", name, c.Pos(end.Pos()))})
	}
}
