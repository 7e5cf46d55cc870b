package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

// errorResult is the index of the error among the results, -1 when there is none.
func errorResult(sig *types.Signature) int {
	r := sig.Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if ai.IsError(r.At(i).Type()) {
			return i
		}
	}
	return -1
}

// benignErr: calls whose error does not stand for a failed operation.
func benignErr(name string) bool {
	for _, p := range []string{"fmt.", "errors.", "(context.Context).", "(*bytes.Buffer).", "(*strings.Builder).", "(hash.", "strconv.", "log.",
		"github.com/goadesign/goa", "time.", "(error).", "(net/http.ResponseWriter)", "net/url.", "regexp."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, ".CloseWithError") || strings.HasPrefix(name, "encoding/json.Marshal") || strings.Contains(name, "rankdb/log") || strings.Contains(name, "logrus")
}

// fallible computes the functions of the module whose error can stand for a failed operation on
// storage, a stream or an encoding.
func (c *Ctx) fallible() map[*ssa.Function]bool {
	base := func(ci ssa.CallInstruction) bool {
		com := ci.Common()
		if errorResult(com.Signature()) < 0 {
			return false
		}
		if com.IsInvoke() {
			return !benignErr(com.Method.FullName())
		}
		f := com.StaticCallee()
		if f == nil {
			_, bi := com.Value.(*ssa.Builtin)
			return !bi
		}
		return len(f.Blocks) == 0 && !benignErr(ai.FullName(f))
	}
	all := map[*ssa.Function]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.P.Funcs {
		f := f
		EachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && base(ci) {
				all[f] = true
			}
			for _, op := range in.Operands(nil) {
				switch g := (*op).(type) {
				case *ssa.Function:
					callees[f] = append(callees[f], g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				callees[f] = append(callees[f], mc.Fn.(*ssa.Function))
			}
		})
	}
	for ch := true; ch; {
		ch = false
		for f, cs := range callees {
			if all[f] {
				continue
			}
			for _, g := range cs {
				if all[g] {
					all[f] = true
					ch = true
				}
			}
		}
	}
	return all
}

// nilErr: nil, or a tuple with a nil member.
func nilErr(v *ai.V) bool {
	if v == nil {
		return false
	}
	if v.K == ai.KTuple {
		for _, a := range v.Args {
			if nilErr(a) {
				return true
			}
		}
	}
	return v.K == ai.KNil
}

const faultPrefix = "fault:"

func isFault(v *ai.V) bool { return v.K == ai.KSym && strings.HasPrefix(v.S, faultPrefix) }

// errRun runs every function by itself (closures and error helpers expanded) with one failing
// operation per path and reports the failures that are neither returned nor handed on.
func (c *Ctx) errRun(r *Result, keep func(fn *ssa.Function) bool, drop func(f Finding, root *ssa.Function, op string)) {
	fall := c.fallible()
	reach := c.reachable()
	isOp := func(cc *ai.CallCtx) bool {
		if errorResult(cc.Sig()) < 0 || readerClose(cc) {
			return false
		}
		if cc.Name == "io.Copy" && cc.Args[0].Any(func(v *ai.V) bool { return v.K == ai.KGlobal && strings.HasSuffix(v.S, ".Discard") }) {
			return false
		}
		if cc.Callee != nil {
			if len(cc.Callee.Blocks) > 0 {
				return fall[cc.Callee]
			}
			return !benignErr(cc.Name)
		}
		return !benignErr(cc.Name)
	}
	passesErr := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if ai.IsError(p.Type()) {
				return true
			}
			if ch, ok := p.Type().Underlying().(*types.Chan); ok && ai.IsError(ch.Elem()) {
				return true
			}
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && ai.IsError(pt.Elem()) {
				return true
			}
			if sg, ok := p.Type().Underlying().(*types.Signature); ok && errorResult(sg) >= 0 {
				return true
			}
		}
		return false
	}
	var roots []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || !strings.HasPrefix(PkgPath(fn), load.ModPath) || c.Generated(fn) || !keep(fn) || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		has := false
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			EachInstr(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok && errorResult(ci.Common().Signature()) >= 0 {
					has = true
				}
			})
			for _, a := range f.AnonFuncs {
				walk(a)
			}
		}
		walk(fn)
		if x := os.Getenv("VSA_ROOT"); x != "" && Short(fn) != x {
			continue
		}
		if has && errorResult(fn.Signature) >= 0 {
			roots = append(roots, fn)
		}
	}
	var mu sync.Mutex
	sites := map[ssa.Instruction]bool{}
	Parallel(len(roots), func(i int) {
		root := roots[i]
		sentinel := comparesErrors(root)
		e := ai.New(c.P)
		e.Mods = c.Mods
		e.FieldFns = c.FFns
		e.Volatile = c.Vol
		e.MaxSteps = c.Budget(400000)
		e.Stop = func() string { return r.enough(c) }
		e.Inline = func(f *ssa.Function) bool {
			return f.Parent() != nil || strings.HasPrefix(PkgPath(f), load.ModPath) && !c.Generated(f) && f != root && (passesErr(f) || fall[f] && errorResult(f.Signature) < 0)
		}
		tainted := func(v *ai.V) bool { return v != nil && v.Any(isFault) }
		// carries: v is, contains or points to a value made from the failure.
		carries := func(st *ai.State, v *ai.V) bool {
			seen := map[*ai.V]bool{}
			var walk func(v *ai.V) bool
			walk = func(v *ai.V) bool {
				if v == nil || seen[v] {
					return false
				}
				seen[v] = true
				if tainted(v) {
					return true
				}
				for _, x := range st.Seq[v] {
					if walk(x) {
						return true
					}
				}
				for _, x := range st.Maps[v] {
					if walk(x) {
						return true
					}
				}
				if v.K == ai.KIface || v.K == ai.KTuple || v.K == ai.KExpr {
					for _, a := range v.Args {
						if walk(a) {
							return true
						}
					}
				}
				if v.K == ai.KAlloc {
					for k, x := range st.Mem {
						if k.Root() == v && walk(x) {
							return true
						}
					}
				}
				return false
			}
			return walk(v)
		}
		e.Differs = func(a, b *ai.V) bool {
			return a != b && (isFault(a) && b.K != ai.KNil && !tainted(b) || isFault(b) && a.K != ai.KNil && !tainted(a))
		}
		report := func(st *ai.State) {
			if st.Marks["fault"] != nil {
				st.Marks["fault"] = e.Bool(true)
			}
		}
		pending := func(st *ai.State) bool {
			m := st.Marks["fault"]
			return m != nil && isFault(m)
		}
		e.KeyExtra = func(e *ai.Engine, st *ai.State) uint64 {
			if !pending(st) {
				return 0
			}
			var h uint64 = 17
			for i, f := range st.Frames {
				for reg, v := range f.Regs {
					if v != nil && carries(st, v) {
						h += uint64(i+1)*1000003 ^ e.RegHash(reg)
					}
					if nilErr(v) {
						h += uint64(i+1)*1000033 ^ e.RegHash(reg)
					}
				}
			}
			for k, v := range st.Mem {
				if tainted(v) {
					h += k.Hash() * 7
				} else if nilErr(v) && k.K == ai.KAlloc {
					h += k.Hash() * 11
				}
			}
			for k, v := range st.Chan {
				if tainted(v) {
					h += k.Hash() * 13
				} else if nilErr(v) {
					h += k.Hash() * 17
				}
			}
			return h
		}
		// tolerated: exempt here or in a caller on the path; a helper only used by an exempt function
		// stands for the operations it performs.
		tolerated := func(st *ai.State, cc *ai.CallCtx, op string) bool {
			for _, f := range st.Frames {
				if c.exemptIn(f.Fn, op) {
					return true
				}
				if cc.Callee != nil && len(cc.Callee.Blocks) > 0 && !Exported(cc.Callee) && !c.addrTkn[cc.Callee] {
					only := true
					for _, ci := range c.callers[cc.Callee] {
						only = only && TopFn(ci.Parent()) == TopFn(f.Fn)
					}
					if only {
						ops := c.errOps(cc.Callee)
						all := len(ops) > 0
						for _, x := range ops {
							all = all && c.exemptIn(f.Fn, x)
						}
						if all {
							return true
						}
					}
				}
			}
			return false
		}
		e.Hooks.Again = func(cc *ai.CallCtx, st *ai.State) {
			if strings.HasPrefix(cc.Name, "github.com/cenkalti/backoff.") {
				report(st)
			}
		}
		e.Hooks.Callback = func(cc *ai.CallCtx, fn *ssa.Function, o ai.Outcome) {
			i := errorResult(fn.Signature)
			if i < 0 || o.Ret == nil || !pending(o.St) || errorResult(cc.Sig()) < 0 {
				return
			}
			ev := o.Ret
			if ev.K == ai.KTuple {
				ev = ev.Args[i]
			}
			if carries(o.St, ev) || e.NilFact(o.St, ev) != ai.IsNil {
				report(o.St)
			}
		}
		e.Hooks.Opaque = func(cc *ai.CallCtx, outs []ai.Outcome) []ai.Outcome {
			idx := errorResult(cc.Sig())
			args := false
			for _, a := range cc.Args {
				args = args || carries(cc.St, a)
			}
			if args && pending(cc.St) {
				if strings.Contains(cc.Name, "rankdb/log") || strings.HasPrefix(cc.Name, "fmt.Print") || strings.HasPrefix(cc.Name, "fmt.Fprint") || strings.HasPrefix(cc.Name, "log.") {
					return outs
				}
				derives := false
				res := cc.Sig().Results()
				method := cc.Sig().Recv() != nil || cc.Instr.Common().IsInvoke()
				if res.Len() == 1 && !sinkCall(cc) && (!method || strings.HasPrefix(cc.Name, "(error).")) {
					t := res.At(0).Type()
					b, ok := t.Underlying().(*types.Basic)
					derives = ai.IsError(t) || ok && b.Info()&types.IsString != 0
					if ok && b.Info()&types.IsBoolean != 0 {
						if cc.Name == "errors.Is" {
							for i := range outs {
								outs[i].Ret = e.Bool(false)
							}
						}
						return outs // errors.As and the like
					}
				}
				for _, o := range outs {
					if derives {
						continue
					}
					report(o.St)
				}
				if derives {
					for i := range outs {
						outs[i].Ret = cc.Fresh(outs[i].St, "derived", true, outs[i].St.Marks["fault"])
					}
				}
				return outs
			}
			if idx < 0 || !isOp(cc) {
				return outs
			}
			mu.Lock()
			sites[cc.Instr] = true
			mu.Unlock()
			with := func(ret, ev *ai.V) *ai.V {
				if cc.Sig().Results().Len() == 1 {
					return ev
				}
				vs := append([]*ai.V(nil), ret.Args...)
				vs[idx] = ev
				return e.Tuple(vs...)
			}
			short := opName(cc.Name)
			for _, o := range outs {
				// A later operation that stands in for the failed one.
				if m := o.St.Marks["fault"]; m != nil && isFault(m) {
					for _, rc := range recoveries {
						if match(rc.op, faultOp(m)) && (rc.by == short || cc.Callee != nil && reach[cc.Callee][rc.by]) && (rc.in == "" || c.within(root, rc.in)) {
							report(o.St)
						}
					}
				}
			}
			var res []ai.Outcome
			for _, o := range outs {
				if sentinel && o.St.Marks["fault"] == nil {
					s := o.St.Clone()
					s.Tr = &ai.Trace{Prev: s.Tr, Pos: cc.Pos(), What: cc.Name + " returns an expected error"}
					res = append(res, ai.Outcome{St: s, Ret: with(o.Ret, cc.Fresh(s, "sentinel", true))})
				}
				if o.St.Marks["fault"] == nil {
					s := o.St.Clone()
					if tolerated(o.St, cc, short) {
						s := o.St.Clone()
						s.Tr = &ai.Trace{Prev: s.Tr, Pos: cc.Pos(), What: cc.Name + " fails (tolerated)"}
						res = append(res, ai.Outcome{St: s, Ret: with(o.Ret, cc.Fresh(s, "tolerated", true))}, ai.Outcome{St: o.St, Ret: with(o.Ret, e.Nil())})
						continue
					}
					fv := e.FreshSym(faultPrefix + short + "@" + c.Pos(cc.Pos()))
					s.Marks["fault"] = fv
					s.Tr = &ai.Trace{Prev: s.Tr, Pos: cc.Pos(), What: cc.Name + " fails"}
					res = append(res, ai.Outcome{St: s, Ret: with(o.Ret, fv)})
				}
				res = append(res, ai.Outcome{St: o.St, Ret: with(o.Ret, e.Nil())})
			}
			return res
		}
		e.Hooks.Store = func(e *ai.Engine, st *ai.State, p, v *ai.V, in ssa.Instruction) {
			if tainted(v) && p.Root().K != ai.KAlloc {
				report(st)
			}
		}
		e.Hooks.MapUpd = func(e *ai.Engine, st *ai.State, m, k, v *ai.V, in ssa.Instruction) {
			if v != nil && carries(st, v) {
				report(st)
			}
		}
		defer func() {
			if p := recover(); p != nil {
				r.Note(fmt.Sprintf("%s: analysis aborted: %v", Short(root), p))
				r.Inc("aborted", 1)
			}
		}()
		outs := e.Run(root, nil)
		Debugf("%-60s outs %d steps %d %s\n", Short(root), len(outs), e.Steps, e.Truncated)
		if os.Getenv("VSA_ROOT") != "" {
			for _, o := range outs {
				Debugf("OUT %v pending %v %v\n", o.Ret, o.St.Marks["fault"], c.TraceOf(o.St, 60))
			}
		}
		if e.Truncated != "" {
			r.Note(fmt.Sprintf("%s: bounded: %s", Short(root), e.Truncated))
		}
		r.Inc("abstract_states", e.NStates)
		ei := errorResult(root.Signature)
		for _, o := range outs {
			r.Inc("exits_checked", 1)
			if !pending(o.St) {
				continue
			}
			var ev *ai.V
			if ei >= 0 && o.Ret != nil {
				ev = o.Ret
				if root.Signature.Results().Len() > 1 {
					if o.Ret.K != ai.KTuple {
						continue
					}
					ev = o.Ret.Args[ei]
				}
				if e.NilFact(o.St, ev) != ai.IsNil {
					continue
				}
			} else if o.Ret != nil && carries(o.St, o.Ret) {
				continue
			}
			f := o.St.Marks["fault"]
			op := faultOp(f)
			pos := "-"
			if i := strings.LastIndexByte(f.S, '@'); i > 0 {
				pos = f.S[i+1:]
				if j := strings.LastIndexByte(pos, '#'); j > 0 {
					pos = pos[:j]
				}
			}
			what := "returns no error"
			if ei < 0 {
				what = "cannot report it"
			}
			drop(Finding{Rule: "error-dropped", Key: "error-dropped|" + Short(root) + "|" + op, Pos: pos, Trace: c.TraceOf(o.St, 60),
				Msg: fmt.Sprintf("%s fails at %s but %s %s", op, pos, Short(root), what)}, root, op)
		}
	})
	r.Counts["functions_analysed"] = len(roots)
	r.Counts["fallible_call_sites"] = len(sites)
}

// errOps: the fallible operations fn and its closures call directly.
func (c *Ctx) errOps(fn *ssa.Function) []string {
	var l []string
	EachInstr(fn, func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || errorResult(ci.Common().Signature()) < 0 {
			return
		}
		n := "dynamic"
		if ci.Common().IsInvoke() {
			n = ci.Common().Method.FullName()
		} else if g := ci.Common().StaticCallee(); g != nil {
			n = ai.FullName(g)
		}
		if !benignErr(n) {
			l = append(l, opName(n))
		}
	})
	for _, a := range fn.AnonFuncs {
		l = append(l, c.errOps(a)...)
	}
	return l
}

// reachable: for each function, the names of the module functions its calls lead to.
func (c *Ctx) reachable() map[*ssa.Function]map[string]bool {
	direct := map[*ssa.Function][]*ssa.Function{}
	ops := map[*ssa.Function][]string{}
	for _, f := range c.P.Funcs {
		f := f
		EachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && len(g.Blocks) > 0 {
					direct[f] = append(direct[f], g)
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if ci.Common().IsInvoke() {
					ops[f] = append(ops[f], opName(ci.Common().Method.FullName()))
				} else if g := ci.Common().StaticCallee(); g != nil && len(g.Blocks) == 0 {
					ops[f] = append(ops[f], opName(ai.FullName(g)))
				}
			}
		})
	}
	out := map[*ssa.Function]map[string]bool{}
	for _, f := range c.P.Funcs {
		m := map[string]bool{}
		seen := map[*ssa.Function]bool{f: true}
		work := []*ssa.Function{f}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			for _, n := range ops[x] {
				m[n] = true
			}
			for _, g := range direct[x] {
				m[Short(g)] = true
				if !seen[g] {
					seen[g] = true
					work = append(work, g)
				}
			}
		}
		out[f] = m
	}
	return out
}

func opName(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, load.ModPath+"/", ""), load.ModPath, "rankdb")
}

// faultOp is the operation that failed.
func faultOp(f *ai.V) string {
	op := strings.TrimPrefix(f.S, faultPrefix)
	if i := strings.LastIndexByte(op, '@'); i > 0 {
		op = op[:i]
	}
	return op
}

// readerClose: closing something that is only read from.
func readerClose(cc *ai.CallCtx) bool {
	com := cc.Instr.Common()
	var t types.Type
	name := ""
	if com.IsInvoke() {
		t, name = com.Value.Type(), com.Method.Name()
	} else if cc.Callee != nil && cc.Callee.Signature.Recv() != nil && len(com.Args) > 0 {
		t, name = com.Args[0].Type(), cc.Callee.Name()
	}
	if name != "Close" || t == nil {
		return false
	}
	has := func(n string) bool {
		o, _, _ := types.LookupFieldOrMethod(t, true, nil, n)
		_, ok := o.(*types.Func)
		return ok
	}
	return has("Read") && !has("Write")
}

// comparesErrors: fn or a closure in it compares an error with a package variable.
func comparesErrors(fn *ssa.Function) bool {
	found := false
	global := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		_, ok = u.X.(*ssa.Global)
		return ok
	}
	EachInstr(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.BinOp:
			found = found || ai.IsError(x.X.Type()) && (global(x.X) || global(x.Y))
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && ai.FullName(f) == "errors.Is" {
				found = true
			}
		}
	})
	for _, a := range fn.AnonFuncs {
		found = found || comparesErrors(a)
	}
	return found
}

// recoveries: a failed operation whose result is replaced by what another operation does.
var recoveries = []struct{ op, by, in, why string }{
	{"(rankdb.SegmentsID).Load", "(*rankdb.List).reindex", "", "an index that cannot be loaded is built again from the scores"},
	{"(*rankdb.List).Verify*", "(*rankdb.List).Repair", "", "a list that does not verify is repaired"},
	{"(*rankdb.List).loadSegments", "(*rankdb.List).populate", "", "the content is replaced"},
	{"(*rankdb.List).loadSegments", "(*rankdb.List).initEmptyList", "(*rankdb.List).Repair", "repairing a list without segments clears it"},
	{"(*rankdb.List).Stats", "(*rankdb.List).populate", "(*rankdb.List).Repair", "only used as a size hint"},
	{"(*rankdb.List).Stats", "(*rankdb.List).initEmptyList", "(*rankdb.List).Repair", "only used as a size hint"},
	{"(*rankdb.Segments).elementFullIdx", "(*rankdb.List).populate", "(*rankdb.List).Repair", "repair keeps what can be read"},
	{"(blobstore.Store).Get", "(*rankdb.Lists).Load", "(*rankdb.Manager).LoadLists", "the backup copy is loaded"},
	{"(*rankdb.Lists).Load", "(*rankdb.Lists).Load", "(*rankdb.Manager).LoadLists", "the backup copy is loaded"},
	{"(*rankdb.Manager).DeleteList", "rankdb.RestoreList", "", "the list is replaced"},
}

// errExempt: operations whose failure the function deliberately tolerates ("" = all).
var errExempt = []struct{ fn, op, why string }{
	{"", "(*rankdb.Segments).Delete", "removing blobs nothing refers to any more is best effort"},
	{"", "(*rankdb.Segment).deleteElements", "removing blobs nothing refers to any more is best effort"},
	{"(*blobstore.MaxSizeStore).Set", "(blobstore.Store).Delete", "parts beyond the new size are never read"},
	{"(*rankdb.Manager).SaveLists", "(blobstore.WithSet).Set", "the backup copy is best effort, the primary is not"},
	{"(*rankdb.List).DeleteAll", "(*rankdb.List).loadSegments", "a list that cannot be loaded can still be removed"},
	{"(*rankdb.List).Stats", "(*rankdb.List).getRankTop", "the top element is an optional detail, absent when it cannot be read"},
	{"(*rankdb.List).Stats", "(*rankdb.List).getRankBottom", "the bottom element is an optional detail, absent when it cannot be read"},
	{"(api/morph.List).Full", "(*rankdb.List).Stats", "details are absent when they cannot be read"},
	{"(*rankdb.List).checkSanity", "", "a debugging aid that only logs"},
	{"rankdb.RestoreList", "(rankdb.SegmentsID).Load", "the replaced index is only loaded to remove it"},
	{"(rankdb.WriterMsgp).Buffer", "", "flushes to memory"},
	{"(*rankdb.Manager).StartIntervalSaver*", "", "background service, retried at the next interval"},
	{"(*rankdb.Manager).StartListSplitter*", "", "background service, retried at the next interval"},
	{"(*rankdb.Manager).StartListPruner*", "", "background service, retried at the next interval"},
	{"(*blobstore.LazySaver).startSaver*", "", "background service, see the check of the lazy saver"},
	{"api.initAws", "", "optional service, nothing uses it when it is not configured"},
	{"api.InitNewRelic", "", "optional service, nothing uses it when it is not configured"},
}

func match(pat, s string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(s, pat[:len(pat)-1])
	}
	return pat == "" || pat == s
}

func exempt(fn, op string) bool {
	for _, x := range errExempt {
		if match(x.fn, fn) && match(x.op, op) {
			return true
		}
	}
	return false
}

// within: fn is the named function, or a helper that only it and its helpers call.
func (c *Ctx) within(fn *ssa.Function, name string) bool {
	return c.helperOf(fn, func(f *ssa.Function) bool { return match(name, Short(f)) }, map[*ssa.Function]bool{})
}

// exemptIn: fn is exempt for op, or a helper of exempt functions.
func (c *Ctx) exemptIn(fn *ssa.Function, op string) bool {
	return c.helperOf(fn, func(f *ssa.Function) bool { return exempt(Short(f), op) }, map[*ssa.Function]bool{})
}

// helperOf: ok holds for fn, or fn is unexported and everything that calls it is such a function.
func (c *Ctx) helperOf(fn *ssa.Function, ok func(*ssa.Function) bool, seen map[*ssa.Function]bool) bool {
	if ok(fn) {
		return true
	}
	if p := fn.Parent(); p != nil {
		return c.helperOf(p, ok, seen)
	}
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if Exported(fn) || c.addrTkn[fn] || len(c.callers[fn]) == 0 {
		return false
	}
	for _, ci := range c.callers[fn] {
		if !c.helperOf(ci.Parent(), ok, seen) {
			return false
		}
	}
	return true
}

// sinkCall: the call answers a request with the error.
func sinkCall(cc *ai.CallCtx) bool {
	return strings.Contains(cc.Name, "/api/app.") && strings.Contains(cc.Name, "Context).")
}

func init() {
	register("C05", "path-sensitive error-flow analysis over go/ssa: one failing operation per path, tracked to every exit", func(c *Ctx) *Result {
		r := NewResult()
		r.Explanation = "Every function of the module that returns an error is simulated over all of its control-flow paths, its closures and error-passing helpers expanded. At each call that can fail for storage, stream or encoding reasons a branch is added on which exactly that call fails with an error of its own; the error is followed through variables, channels, closures, structures and wrapping calls. On every exit with a nil error result the failure must have been handed on: returned in a result, stored in shared state, sent, answered to the client, retried or made irrelevant by a recovery listed in the source table with its reason. Logging alone does not count."
		r.Rules = []string{"error-dropped: an operation fails on a path on which the function reports success"}
		r.Assumptions = []string{
			"one operation fails per path; errors compared with package level sentinels are also tried as expected errors",
			"an error handed to another call that is not a logger is that call's responsibility",
			"functions without an error result are checked inside their callers",
			"the tables errExempt and recoveries list best effort operations, each with its reason, in analyzer/checks/errflow.go",
		}
		r.Floors["functions_analysed"] = 120
		r.Floors["fallible_call_sites"] = 380
		r.Floors["exits_checked"] = 450
		c.errRun(r, func(*ssa.Function) bool { return true }, func(f Finding, root *ssa.Function, op string) {
			r.Add(f)
		})
		return r
	})
}
