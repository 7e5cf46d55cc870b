package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

// C14: nothing reaches through nil.

type nilness struct {
	c      *Ctx
	r      *Result
	mu     sync.Mutex
	unsets map[string]bool
	rows   map[*ssa.Function]map[string]bool // what results can be nil together
	seen   map[ssa.Instruction]bool
	firsts map[ssa.Instruction]bool
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// optional: a field of a request or response that is a pointer because it may be left out.
func optional(p *ai.V) (string, bool) {
	if p.K != ai.KDeref || p.Args[0].K != ai.KField || p.Args[0].T == nil {
		return "", false
	}
	owner, name := p.Args[0].T, p.Args[0].S
	n, ok := owner.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", false
	}
	if pp := n.Obj().Pkg().Path(); !strings.HasPrefix(pp, load.ModPath) && !strings.HasPrefix(pp, "vp") {
		return "", false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != name {
			continue
		}
		if pt, ok := f.Type().Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Basic); ok {
				return n.Obj().Name() + "." + name, true
			}
		}
	}
	return "", false
}

// maybeUnset are the fields and package variables that the code itself compares with nil.
func maybeUnset(c *Ctx) map[string]bool {
	set := map[string]bool{}
	for _, n := range []string{".Manager.Backup", ".Segments.cache", "/api.awsSession", "/api.cache", "/api.lazySaver", "/api.nrApp", "/api.updateBucket",
		"/blobstore.TestStorage.DeleteCallback", "/blobstore.TestStorage.GetCallback", "/blobstore.TestStorage.SetCallback",
		"/log.interceptAdapter.errCB", "/log.interceptAdapter.infCB", "/log/loggoa.interceptAdapter.errCB", "/log/loggoa.interceptAdapter.infCB"} {
		set[load.ModPath+n] = true
	}
	for _, f := range c.P.Funcs {
		if !strings.HasPrefix(PkgPath(f), load.ModPath) && !strings.HasPrefix(PkgPath(f), "vp") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cmp, ok := in.(*ssa.BinOp)
				if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
					continue
				}
				for _, o := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
					k, ok := o[1].(*ssa.Const)
					if !ok || k.Value != nil || !nilable(o[0].Type()) || ai.IsError(o[0].Type()) {
						continue
					}
					u, ok := o[0].(*ssa.UnOp)
					if !ok {
						continue
					}
					if _, ok := u.X.(*ssa.FieldAddr); ok {
						if _, ok := o[0].Type().Underlying().(*types.Pointer); ok {
							continue // may be loaded on demand
						}
					}
					if n := fieldOrGlobal(u); n != "" {
						set[n] = true
					}
				}
			}
		}
	}
	return set
}

// fieldName names the field or package variable that the register was loaded from.
func fieldOrGlobal(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		if f, ok := v.(*ssa.Field); ok {
			if n, ok := f.X.Type().(*types.Named); ok {
				return n.String() + "." + n.Underlying().(*types.Struct).Field(f.Field).Name()
			}
		}
		return ""
	}
	switch a := u.X.(type) {
	case *ssa.FieldAddr:
		if p, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return n.String() + "." + n.Underlying().(*types.Struct).Field(a.Field).Name()
			}
		}
	case *ssa.Global:
		return a.String()
	}
	return ""
}

// looked: before it gets here the function has compared this field with nil, whatever it concluded.
func looked(in ssa.Instruction, name string, depth int) bool {
	here := in.Block()
	f := in.Parent()
	for _, b := range f.Blocks {
		if !b.Dominates(here) {
			continue
		}
		for _, o := range b.Instrs {
			if o == in {
				break
			}
			if looks(o, name, depth) {
				return true
			}
		}
	}
	if p := f.Parent(); p != nil {
		for _, b := range p.Blocks {
			for _, o := range b.Instrs {
				if mc, ok := o.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					return looked(mc, name, depth)
				}
			}
		}
	}
	return false
}

func looks(o ssa.Instruction, name string, depth int) bool {
	switch o := o.(type) {
	case *ssa.BinOp:
		for _, v := range [][2]ssa.Value{{o.X, o.Y}, {o.Y, o.X}} {
			if k, ok := v[1].(*ssa.Const); ok && k.Value == nil && fieldOrGlobal(v[0]) == name {
				return true
			}
		}
	case *ssa.Call:
		g := o.Call.StaticCallee()
		if g == nil || depth > 1 || !strings.HasPrefix(PkgPath(g), load.ModPath) || len(g.Blocks) > 20 {
			return false
		}
		for _, b := range g.Blocks {
			for _, o := range b.Instrs {
				if looks(o, name, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// unset: a field or variable that is nil when it is not in use.
func (x *nilness) unset(p *ai.V) (string, bool) {
	if p.K != ai.KDeref {
		return "", false
	}
	n := ""
	switch a := p.Args[0]; {
	case a.K == ai.KField && a.T != nil:
		n = a.T.String() + "." + a.S
	case a.K == ai.KGlobal:
		n = a.S
	}
	if !x.unsets[n] || strings.Contains(n, "/api/app.") {
		return "", false
	}
	return strings.TrimPrefix(n, load.ModPath), true
}

// needsReceiver: the method uses its receiver whatever happens.
func needsReceiver(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return true
	}
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			if in.X == ssa.Value(f.Params[0]) {
				return true
			}
		case *ssa.UnOp:
			if in.X == ssa.Value(f.Params[0]) {
				return true
			}
		}
	}
	return false
}

// inline: small functions whose result may be nil without saying so, and functions that may not return
// or that look whether something is nil.
func (x *nilness) inline(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 12 || !strings.HasPrefix(PkgPath(f), load.ModPath) && !strings.HasPrefix(PkgPath(f), "vp") {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if noReturn(in.Call.StaticCallee()) {
					return true
				}
			case *ssa.BinOp:
				for _, o := range []ssa.Value{in.X, in.Y} {
					if k, ok := o.(*ssa.Const); ok && k.Value == nil && nilable(in.X.Type()) && !ai.IsError(in.X.Type()) {
						return true // it may tell its caller that something is there
					}
				}
			}
		}
	}
	return silent(f.Signature)
}

// silent: one result, which may be nil and is not an error.
func silent(sig *types.Signature) bool {
	res := sig.Results()
	return res.Len() == 1 && nilable(res.At(0).Type()) && !ai.IsError(res.At(0).Type())
}

// makesError: the call makes an error.
func makesError(cc *ai.CallCtx) bool {
	if cc.Callee != nil {
		switch PkgPath(cc.Callee) {
		case "errors", "fmt", "github.com/pkg/errors":
			return true
		}
		return false
	}
	return cc.FnV != nil && cc.FnV.K == ai.KDeref && cc.FnV.Args[0].K == ai.KGlobal && strings.Contains(cc.FnV.Args[0].S, ".Err")
}

// mayFindNothing: a function of another module that returns nil when there is nothing to return.
func mayFindNothing(f *ssa.Function) bool {
	switch PkgPath(f) {
	case "container/list":
		switch f.Name() {
		case "Front", "Back", "Next", "Prev":
			return true
		}
	case "github.com/goadesign/goa/middleware/security/jwt":
		return f.Name() == "ContextJWT"
	case "github.com/goadesign/goa":
		return f.Name() == "ContextError"
	}
	return false
}

func noReturn(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	switch n := f.Name(); PkgPath(f) {
	case "os":
		return n == "Exit"
	case "github.com/klauspost/shutdown2":
		return n == "Exit"
	case "log":
		return strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")
	case "runtime":
		return n == "Goexit"
	}
	return false
}

// usesUnchecked: the function reaches through the parameter and nowhere asks whether it is nil.
func usesUnchecked(f *ssa.Function, i int) bool {
	if len(f.Blocks) == 0 || i >= len(f.Params) {
		return false
	}
	p := f.Params[i]
	used := false
	for _, ref := range *p.Referrers() {
		switch ref := ref.(type) {
		case *ssa.BinOp, *ssa.Phi, *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.MakeClosure:
			return false
		case *ssa.Store:
			if ref.Val == ssa.Value(p) {
				return false
			}
			used = true
		case *ssa.FieldAddr:
			used = true
		case *ssa.UnOp:
			used = used || ref.Op == token.MUL
		case ssa.CallInstruction:
			used = used || ref.Common().IsInvoke() && ref.Common().Value == ssa.Value(p)
		}
	}
	return used
}

// claims reports type assertions on what a token carries that do not ask whether the type is right.
func (x *nilness) claims() {
	n := 0
	for _, f := range x.c.P.Funcs {
		if !strings.HasPrefix(PkgPath(f), load.ModPath) && !strings.HasPrefix(PkgPath(f), "vp") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || !fromToken(ta.X, map[ssa.Value]bool{}) {
					continue
				}
				n++
				if !ta.CommaOk {
					x.r.Add(Finding{Rule: "claim-type-assumed", Key: "claim-type-assumed|" + Short(TopFn(f)), Pos: x.c.Pos(ta.Pos()),
						Msg: Short(TopFn(f)) + ": the type of what the token carries is assumed here: any other type panics"})
				}
			}
		}
	}
	x.r.Counts["claim_types_checked"] = n
	x.r.Floors["claim_types_checked"] = 1
}

func fromToken(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if strings.HasSuffix(v.Type().String(), "jwt-go.MapClaims") || strings.HasSuffix(v.Type().String(), "jwt-go.Claims") {
		return true
	}
	switch v := v.(type) {
	case *ssa.Extract:
		return fromToken(v.Tuple, seen)
	case *ssa.Lookup:
		return fromToken(v.X, seen)
	case *ssa.Index:
		return fromToken(v.X, seen)
	case *ssa.IndexAddr:
		return fromToken(v.X, seen)
	case *ssa.UnOp:
		return fromToken(v.X, seen)
	case *ssa.TypeAssert:
		return fromToken(v.X, seen)
	case *ssa.ChangeInterface:
		return fromToken(v.X, seen)
	case *ssa.Next:
		return fromToken(v.Iter, seen)
	case *ssa.Range:
		return fromToken(v.X, seen)
	case *ssa.Parameter:
		// a helper: what its callers hand it
		f := v.Parent()
		for i, p := range f.Params {
			if p != v || f.Referrers() == nil {
				continue
			}
			for _, ref := range *f.Referrers() {
				if call, ok := ref.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f && i < len(call.Common().Args) && fromToken(call.Common().Args[i], seen) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if fromToken(e, seen) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C14", "path-sensitive nilness with summaries of which results are nil together (abstract interpretation of go/ssa)", func(c *Ctx) *Result {
		r := NewResult()
		r.Rules = []string{"nil-used", "failed-result-used", "optional-not-checked", "unset-not-checked", "nil-map-written", "first-of-none", "claim-type-assumed"}
		r.Explanation = "Every function is followed on all its paths, with the results of each call split into what succeeds and what fails: " +
			"no pointer, interface or function that is nil on the path is used, no nil map is written, and optional request values are used only after a check."
		x := &nilness{c: c, unsets: maybeUnset(c), r: NewResult(), rows: map[*ssa.Function]map[string]bool{}, seen: map[ssa.Instruction]bool{}, firsts: map[ssa.Instruction]bool{}}
		x.run()
		x.r = NewResult()
		x.run()
		x.r = r
		x.run()
		x.claims()
		r.Counts["uses_checked"] = len(x.seen)
		r.Counts["first_elements_used"] = len(x.firsts)
		r.Floors["first_elements_used"] = 2
		r.Counts["summaries"] = len(x.rows)
		r.Floors["uses_checked"] = 1000
		r.Floors["optional_values_used"] = 8
		r.Assumptions = append(r.Assumptions, "parameters and stored pointers are not nil unless a check on the path says so",
			"functions of other modules return nil with an error and something otherwise")
		return r
	})
}

func (x *nilness) run() {
	c, r := x.c, x.r
	rel := ai.NewRelevance(c.P.Funcs, func(in ssa.Instruction) bool { return true })
	next := map[*ssa.Function]map[string]bool{}
	opt := map[ssa.Instruction]bool{}
	c.Simulate(r, SimOpts{
		Rel: rel,
		Pkgs: func(p string) bool {
			return !strings.Contains(p, "/examples") && !strings.HasSuffix(p, "/tool") && !strings.Contains(p, "/api/client") && !strings.Contains(p, "/api/app") && !strings.Contains(p, "/api/design")
		},
		MaxSteps: 400000,
		Setup: func(e *ai.Engine, root *ssa.Function) {
			e.Settled = c.Settled(e)
			e.SplitRet = true
			e.LaxLookup = true
			e.DropDerefFacts = false
			e.Inline = func(f *ssa.Function) bool { return f.Parent() != nil || x.inline(f) }
			e.Hooks.Branch = func(e *ai.Engine, st *ai.State, in *ssa.If, taken bool) {
				// whether an optional value was given is not forgotten where paths meet
				b, ok := in.Cond.(*ssa.BinOp)
				if !ok {
					return
				}
				for _, o := range []ssa.Value{b.X, b.Y} {
					if !nilable(o.Type()) {
						continue
					}
					v := e.Eval(st, o)
					n, ok := optional(v)
					root := v
					for root.K == ai.KDeref || root.K == ai.KField {
						root = root.Args[0]
					}
					if !ok || root.K != ai.KParam {
						continue
					}
					kept := 0
					for k := range st.Marks {
						if strings.HasPrefix(k, "opt|") {
							kept++
						}
					}
					if kept < 4 {
						st.Marks[fmt.Sprintf("opt|%s|%v", n, e.NilFact(st, v) == ai.IsNil)] = nil
					}
				}
			}
			report := func(st *ai.State, in ssa.Instruction, rule, what, msg string) {
				f := TopFn(in.Parent())
				r.Add(Finding{Rule: rule, Key: rule + "|" + Short(f) + "|" + what, Pos: c.Pos(in.Pos()), Msg: Short(f) + ": " + msg, Trace: c.TraceOf(st, 30)})
			}
			why := func(st *ai.State) (string, string) {
				var l []string
				for k := range st.Marks {
					if strings.HasPrefix(k, "fail|") {
						l = append(l, k)
					}
				}
				sort.Strings(l)
				for _, k := range l {
					p := strings.Split(k, "|")
					return p[1], p[2]
				}
				return "", ""
			}
			unsetUse := func(st *ai.State, in ssa.Instruction, n string) {
				if looked(in, load.ModPath+n, 0) {
					return
				}
				n = n[strings.LastIndexByte(n, '/')+1:]
				report(st, in, "unset-not-checked", n, fmt.Sprintf("%s, which may be nil, is used here on a path that has not checked it", n))
			}
			nilUse := func(st *ai.State, in ssa.Instruction) {

				if callee, pos := why(st); callee != "" {
					report(st, in, "failed-result-used", callee, fmt.Sprintf("what %s returned at %s is used here although the call failed on this path", callee, pos))
					return
				}
				report(st, in, "nil-used", "", "a value that is nil on this path is used here")
			}
			e.Hooks.Deref = func(e *ai.Engine, st *ai.State, p *ai.V, in ssa.Instruction) {
				x.mu.Lock()
				x.seen[in] = true
				x.mu.Unlock()
				switch e.NilFact(st, p) {
				case ai.IsNil:
					nilUse(st, in)
				case ai.Unknown:
					if n, ok := x.unset(p); ok {
						unsetUse(st, in, n)
					} else if n, ok := optional(p); ok && !looked(in, p.Args[0].T.String()+"."+p.Args[0].S, 0) {
						report(st, in, "optional-not-checked", n, fmt.Sprintf("the optional value %s is used here on a path that has not checked that it was given", n))
					}
				case ai.NotNil:
					if _, ok := optional(p); ok {
						x.mu.Lock()
						opt[in] = true
						x.mu.Unlock()
					}
				}
			}
			e.Hooks.Leave = func(e *ai.Engine, fn *ssa.Function, st *ai.State, ret *ai.V) {
				// that a function found nothing is not forgotten where paths meet
				if ret == nil || !silent(fn.Signature) {
					return
				}
				k := "fail|" + Short(fn) + "|" + c.Pos(fn.Pos())
				delete(st.Marks, k)
				if e.NilFact(st, ret) == ai.IsNil {
					for o := range st.Marks {
						if strings.HasPrefix(o, "fail|") {
							delete(st.Marks, o)
						}
					}
					st.Marks[k] = nil
				}
			}
			e.Hooks.Index = func(e *ai.Engine, st *ai.State, v, i *ai.V, in *ssa.IndexAddr) {
				if _, ok := in.X.Type().Underlying().(*types.Slice); !ok {
					return
				}
				k, ok := in.Index.(*ssa.Const)
				if !ok || k.Int64() != 0 {
					return
				}
				ex, ok := in.X.(*ssa.Extract)
				if !ok {
					return
				}
				call, ok := ex.Tuple.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !strings.HasPrefix(PkgPath(call.Call.StaticCallee()), load.ModPath) {
					return
				}
				x.mu.Lock()
				x.firsts[in] = true
				x.mu.Unlock()
				if st.Facts[v] != ai.NonEmpty {
					n := Short(call.Call.StaticCallee())
					report(st, in, "first-of-none", n, "the first of what "+n+" found is used here on a path that has not checked that it found any")
				}
			}
			e.Hooks.MapUpd = func(e *ai.Engine, st *ai.State, m, k, v *ai.V, in ssa.Instruction) {
				if v != nil && e.NilFact(st, m) == ai.IsNil {
					report(st, in, "nil-map-written", "", "the map written here is nil on this path")
				}
			}
			e.Hooks.Return = func(e *ai.Engine, st *ai.State, ret *ai.V) {
				res := root.Signature.Results()
				if res.Len() == 0 || ret == nil {
					return
				}
				vs := []*ai.V{ret}
				if ret.K == ai.KTuple && res.Len() > 1 {
					vs = ret.Args
				}
				if len(vs) != res.Len() {
					return
				}
				row := make([]byte, len(vs))
				any := false
				for i, v := range vs {
					t := res.At(i).Type()
					row[i] = '-'
					switch {
					case nilable(t), isSlice(t):
						any = any || nilable(t)
						switch e.NilFact(st, v) {
						case ai.IsNil:
							row[i] = 'n'
							if silent(root.Signature) {
								row[i] = 'u' // when it is nil may depend on what it was given
							}
						case ai.NotNil:
							row[i] = 'v'
						default:
							row[i] = 'u'
						}
					case isBool(t):
						row[i] = 'u'
						switch e.Truth(st, v) {
						case ai.True:
							row[i] = 't'
						case ai.False:
							row[i] = 'f'
						}
					}
				}
				if !any {
					return
				}
				x.mu.Lock()
				if next[root] == nil {
					next[root] = map[string]bool{}
				}
				next[root][string(row)] = true
				x.mu.Unlock()
			}
			e.Hooks.Call = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
				st := cc.St
				if noReturn(cc.Callee) {
					return nil, true
				}
				if res := cc.Sig().Results(); res.Len() == 1 && ai.IsError(res.At(0).Type()) && makesError(cc) {
					return []ai.Outcome{{St: st, Ret: cc.Fresh(st, "err", true)}}, true
				}
				if cc.Callee != nil && x.inline(cc.Callee) {
					return nil, false
				}
				if cc.Callee != nil && cc.Callee.Signature.Recv() != nil && len(cc.Args) > 0 {
					if _, ok := cc.Callee.Signature.Recv().Type().Underlying().(*types.Pointer); ok && needsReceiver(cc.Callee) {
						switch e.NilFact(st, cc.Args[0]) {
						case ai.IsNil:
							nilUse(st, cc.Instr)
							return nil, true
						case ai.Unknown:
							if n, ok := x.unset(cc.Args[0]); ok {
								unsetUse(st, cc.Instr, n)
							}
						}
					}
				}
				if f := cc.Callee; f != nil && strings.HasPrefix(PkgPath(f), load.ModPath) {
					for i, a := range cc.Args {
						if i < len(f.Params) && nilable(f.Params[i].Type()) && e.NilFact(st, a) == ai.IsNil && usesUnchecked(f, i) {
							nilUse(st, cc.Instr)
							return nil, true
						}
					}
				}
				if cc.Callee != nil && cc.Callee.Parent() != nil && len(cc.Callee.Blocks) > 0 {
					return nil, false
				}
				sig := cc.Sig()
				res := sig.Results()
				ptr := false
				for i := 0; i < res.Len(); i++ {
					if nilable(res.At(i).Type()) && !ai.IsError(res.At(i).Type()) {
						ptr = true
					}
				}
				if !ptr {
					return nil, false
				}
				var rows []string
				if cc.Callee != nil && x.rows[cc.Callee] != nil {
					for w := range x.rows[cc.Callee] {
						rows = append(rows, w)
					}
					sort.Strings(rows)
				} else if n := res.Len(); n > 1 && (cc.Callee == nil || !strings.HasPrefix(PkgPath(cc.Callee), load.ModPath) || len(cc.Callee.Blocks) == 0) {
					last := res.At(n - 1).Type()
					ok, bad := make([]byte, n), make([]byte, n)
					for i := range ok {
						ok[i], bad[i] = '-', '-'
						if nilable(res.At(i).Type()) {
							ok[i], bad[i] = 'u', 'u'
							if _, m := res.At(i).Type().Underlying().(*types.Pointer); m {
								ok[i], bad[i] = 'v', 'n'
							} else if _, m := res.At(i).Type().Underlying().(*types.Interface); m {
								bad[i] = 'n'
							}
						}
					}
					switch {
					case ai.IsError(last):
						ok[n-1], bad[n-1] = 'n', 'v'
					case isBool(last):
						ok[n-1], bad[n-1] = 't', 'f'
					default:
						return nil, false
					}
					rows = []string{string(ok), string(bad)}
				}
				if cc.Callee != nil && mayFindNothing(cc.Callee) {
					rows = []string{"n", "v"}
				}
				if len(rows) == 0 || len(rows) > 8 {
					return nil, false
				}
				name := cc.Name
				if cc.Callee != nil {
					name = Short(cc.Callee)
				}
				var outs []ai.Outcome
				for ri, row := range rows {
					s := st
					if ri < len(rows)-1 {
						s = st.Clone()
					}
					var vs []*ai.V
					failed := false
					for i := 0; i < res.Len(); i++ {
						switch row[i] {
						case 'n':
							vs = append(vs, e.Nil())
							failed = failed || nilable(res.At(i).Type()) && !ai.IsError(res.At(i).Type())
						case 'v':
							vs = append(vs, cc.Fresh(s, fmt.Sprintf("r%d", i), true))
						case 't':
							vs = append(vs, e.Bool(true))
						case 'f':
							vs = append(vs, e.Bool(false))
						default:
							vs = append(vs, cc.Fresh(s, fmt.Sprintf("u%d", i), false))
						}
					}
					k := "fail|" + name + "|" + c.Pos(cc.Instr.Pos())
					delete(s.Marks, k)
					if failed {
						for o := range s.Marks {
							if strings.HasPrefix(o, "fail|") {
								delete(s.Marks, o)
							}
						}
						s.Marks[k] = nil
					}
					ret := vs[0]
					if len(vs) > 1 {
						ret = e.Tuple(vs...)
					}
					outs = append(outs, ai.Outcome{St: s, Ret: ret})
				}
				return outs, true
			}
		},
	})
	x.rows = next
	r.Counts["optional_values_used"] = len(opt)
}
