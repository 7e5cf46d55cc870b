package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

// C13: what is opened is closed.

type resources struct {
	c      *Ctx
	r      *Result
	pooled map[string]bool // types whose Close puts them in a pool
}

// What kind of release a type needs.
const (
	noRelease = iota
	mustClose // leaks when it is not released
	mayClose  // may be left to the garbage collector, but not used after release
)

// noResource: closers that hold nothing.
var noResource = map[string]bool{
	"compress/flate.NewReader": true, "compress/gzip.NewReader": true, "compress/zlib.NewReader": true,
	"io/ioutil.NopCloser": true, "io.NopCloser": true, "io.Pipe": true,
}

// borrows: callees that use a closer without taking it over.
func borrows(cc *ai.CallCtx) bool {
	p := ""
	if cc.Callee != nil {
		p = PkgPath(cc.Callee)
		switch Short(cc.Callee) {
		case "rankdb.NewReaderMsgpReader", "rankdb.NewReaderMsgp", "(rankdb.WriterMsgp).ReplaceWriter", "(*rankdb.WriterMsgp).ReplaceWriter",
			"(*rankdb.List).Backup", "rankdb.RestoreList":
			return true
		}
	} else if cc.Method != nil && cc.Method.Pkg() != nil {
		p = cc.Method.Pkg().Path()
	}
	switch p {
	case "io", "io/ioutil", "bufio", "bytes", "fmt", "encoding/json", "encoding/binary", "encoding/gob", "errors", "strings", "time", "context", "sort":
		return true
	}
	if strings.HasPrefix(p, "compress/") || strings.Contains(p, "klauspost/compress") || strings.Contains(p, "readahead") || strings.Contains(p, "msgp") ||
		p == load.ModPath+"/log" || strings.HasPrefix(p, load.ModPath+"/log/") {
		return true
	}
	return false
}

// readsOnly: argument n goes to a parameter that has no release operation, so the callee does not take it over.
func (x *resources) readsOnly(cc *ai.CallCtx, n int) bool {
	if cc.Callee == nil && cc.Method == nil {
		return false
	}
	p := ""
	if cc.Callee != nil {
		p = PkgPath(cc.Callee)
		if cc.Callee.Signature.Recv() != nil {
			n--
		}
	} else {
		if cc.Method.Pkg() != nil {
			p = cc.Method.Pkg().Path()
		}
		n--
	}
	if strings.HasPrefix(p, "net/") || n < 0 || n >= cc.Sig().Params().Len() {
		return false
	}
	res := cc.Sig().Results()
	for i := 0; i < res.Len(); i++ {
		if x.kind(res.At(i).Type()) != noRelease {
			return false
		}
	}
	t := cc.Sig().Params().At(n).Type()
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() > 0 && x.kind(t) == noRelease
}

// wraps: constructors of writers that keep data for the writer they are given.
func wraps(cc *ai.CallCtx) bool {
	if cc.Callee == nil || len(cc.Args) == 0 {
		return false
	}
	r := cc.Sig().Results()
	if r.Len() == 0 || types.NewMethodSet(r.At(0).Type()).Lookup(nil, "Write") == nil {
		return false
	}
	p := PkgPath(cc.Callee)
	return strings.HasPrefix(p, "compress/") || strings.Contains(p, "klauspost/compress") || p == "bufio" || strings.HasPrefix(p, "archive/")
}

func (x *resources) kind(t types.Type) int {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "CancelFunc" {
		return mustClose
	}
	switch n := namedOf(t); {
	case n == "net/http.Response" || n == "time.Ticker":
		return mustClose
	case x.pooled[n]:
		return mayClose
	case strings.HasPrefix(n, "context.") || n == "reflect.Value":
		return noRelease
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
	default:
		return noRelease
	}
	ms := types.NewMethodSet(t)
	has := func(name string) bool {
		m := ms.Lookup(nil, name)
		if m == nil {
			return false
		}
		s, ok := m.Type().(*types.Signature)
		return ok && s.Params().Len() == 0
	}
	if has("Close") || has("Commit") && (has("Discard") || has("Rollback")) {
		return mustClose
	}
	return noRelease
}

func releases(name string) bool {
	return strings.HasPrefix(name, "Close") || name == "Stop" || name == "Discard" || name == "Rollback" || name == "Commit" || name == "Shutdown"
}

func strip(v *ai.V) *ai.V {
	for v != nil && v.K == ai.KIface {
		v = v.Args[0]
	}
	return v
}

// resource is the tracked value behind v: itself, the body of a response, or what a part was taken from.
func resource(v *ai.V) *ai.V {
	v = strip(v)
	if v == nil {
		return nil
	}
	for v.K == ai.KExpr && v.S == "part" {
		v = strip(v.Args[0])
	}
	if v.K == ai.KDeref {
		switch a := v.Args[0]; {
		case a.K == ai.KField && a.S == "Body":
			return a.Args[0]
		case a.K == ai.KSym:
			// the value a tracked pointer points to
			return a
		}
	}
	return v
}

// reaches: target can be found from v.
func reaches(st *ai.State, v, target *ai.V, seen map[*ai.V]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	if v == target {
		return true
	}
	seen[v] = true
	if v.K == ai.KExpr && v.S == "ctx" {
		// a context does not give access to its cancel function
		return false
	}
	if v.K == ai.KDeref && v.Root() == target {
		// what is read from a resource is not the resource
		if resource(v) == target {
			return true
		}
	} else {
		for _, a := range v.Args {
			if reaches(st, a, target, seen) {
				return true
			}
		}
	}
	for _, s := range st.Seq[v] {
		if reaches(st, s, target, seen) {
			return true
		}
	}
	for _, s := range st.Maps[v] {
		if reaches(st, s, target, seen) {
			return true
		}
	}
	if v.K == ai.KAlloc || v.K == ai.KSym || v.K == ai.KParam || v.K == ai.KDeref || v.K == ai.KField || v.K == ai.KIndex {
		for k, w := range st.Mem {
			for c := k; c != nil; {
				if c == v {
					if reaches(st, w, target, seen) {
						return true
					}
					break
				}
				if len(c.Args) == 0 || c.K != ai.KField && c.K != ai.KIndex && c.K != ai.KDeref {
					break
				}
				c = c.Args[0]
			}
		}
	}
	return false
}

// kept: others can find the target when the entry point returned ret.
func kept(st *ai.State, ret, target *ai.V) bool {
	if ret != nil && reaches(st, ret, target, map[*ai.V]bool{}) {
		return true
	}
	for k, w := range st.Mem {
		root := k.Root()
		if root.K == ai.KAlloc {
			continue
		}
		if root == target {
			continue
		}
		if reaches(st, w, target, map[*ai.V]bool{}) {
			return true
		}
	}
	for _, m := range st.Maps {
		for _, w := range m {
			if reaches(st, w, target, map[*ai.V]bool{}) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C13", "path-sensitive typestate of closers, responses, cancel functions, tickers, transactions and pooled codecs (abstract interpretation of go/ssa)", func(c *Ctx) *Result {
		r := NewResult()
		x := &resources{c: c, r: r, pooled: map[string]bool{}}
		r.Rules = []string{"not-closed", "used-after-close", "closed-twice", "closed-before-its-wrapper"}
		r.Explanation = "Every value with a release operation that a call hands out is followed on all paths: it is released, returned, or kept by something that outlives the call; " +
			"it is not used after its release; pooled codecs are released once; a writer is not closed while a compressor still holds data for it."
		// pooled types
		for _, f := range c.P.Funcs {
			if f.Signature.Recv() == nil || f.Name() != "Close" && f.Name() != "Release" && f.Name() != "Free" || !strings.HasPrefix(PkgPath(f), load.ModPath) {
				continue
			}
			EachInstr(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.String() == "(*sync.Pool).Put" {
						a := ci.Common().Args[1]
						if m, ok := a.(*ssa.MakeInterface); ok {
							a = m.X
						}
						if len(f.Params) > 0 && a == ssa.Value(f.Params[0]) {
							x.pooled[namedOf(f.Params[0].Type())] = true
						}
					}
				}
			})
		}
		Debugf("pooled %v\n", x.pooled)
		x.run()
		r.Counts["pooled_types"] = len(x.pooled)
		r.Floors["acquisition_sites"] = 15
		r.Floors["releases_seen"] = 15
		r.Assumptions = append(r.Assumptions, "functions of other modules take over closers passed to them, except readers, writers and formatters of the standard library, compression, msgp and logging",
			"paths that panic are not followed")
		return r
	})
}

func (x *resources) acquires(sig *types.Signature) (int, int) {
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		if k := x.kind(res.At(i).Type()); k != noRelease {
			return i, k
		}
	}
	return -1, noRelease
}

func (x *resources) run() {
	c, r := x.c, x.r
	rel := ai.NewRelevance(c.P.Funcs, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		com := ci.Common()
		if _, k := x.acquires(com.Signature()); k != noRelease {
			return true
		}
		name := ""
		if com.IsInvoke() {
			name = com.Method.Name()
			if releases(name) {
				return true
			}
		} else if f := com.StaticCallee(); f != nil && f.Signature.Recv() != nil && releases(f.Name()) {
			return true
		}
		if n, ok := com.Value.Type().(*types.Named); ok && n.Obj().Name() == "CancelFunc" {
			return true
		}
		return strings.HasPrefix(PkgPath(in.Parent()), load.ModPath) && x.exchanges(in.Parent())
	})
	sites := map[ssa.Instruction]bool{}
	relSites := map[ssa.Instruction]bool{}
	var mu = make(chan bool, 1)
	note := func(m map[ssa.Instruction]bool, in ssa.Instruction) {
		mu <- true
		m[in] = true
		<-mu
	}
	what := func(v *ai.V) string {
		return ""
	}
	_ = what
	c.Simulate(r, SimOpts{
		Rel: rel,
		Pkgs: func(p string) bool {
			return !strings.Contains(p, "/cmd/") && !strings.Contains(p, "/examples") && !strings.HasSuffix(p, "/tool") && !strings.Contains(p, "/api/app")
		},
		Setup: func(e *ai.Engine, root *ssa.Function) {
			e.Settled = c.Settled(e)
			e.SplitRet = true
			inl := e.Inline
			e.Inline = func(f *ssa.Function) bool {
				return (f.Parent() != nil || x.exchanges(f)) && (inl(f) || strings.HasSuffix(PkgPath(f), "/api/client") && rel.Has(f))
			}
			open := func(st *ai.State, v *ai.V) (string, bool) {
				for k, w := range st.Marks {
					if w == v && (strings.HasPrefix(k, "open|") || strings.HasPrefix(k, "pool|")) {
						return k, true
					}
				}
				return "", false
			}
			closedAt := func(st *ai.State, v *ai.V) (string, bool) {
				for k, w := range st.Marks {
					if w == v && strings.HasPrefix(k, "closed|") {
						return k, true
					}
				}
				return "", false
			}
			siteOf := func(k string) (pos, typ string) {
				p := strings.Split(k, "|")
				return p[len(p)-3], p[len(p)-1]
			}
			use := func(cc *ai.CallCtx, v *ai.V, name string) {
				w := resource(v)
				if w == nil {
					return
				}
				k, ok := closedAt(cc.St, w)
				if !ok {
					return
				}
				pos, typ := siteOf(k)
				pool := strings.HasPrefix(k, "closed|pool|")
				rule, msg := "used-after-close", "is used after it was closed"
				if releases(name) {
					if !pool {
						return
					}
					rule, msg = "closed-twice", "is closed again; it is in a pool and may already be in use elsewhere"
				} else if pool {
					msg = "is used after it was put in a pool, where others can take it"
				}
				f := TopFn(cc.Instr.Parent())
				r.Add(Finding{Rule: rule, Key: rule + "|" + typ + "|" + Short(f), Pos: c.Pos(cc.Instr.Pos()),
					Msg: fmt.Sprintf("%s: the %s opened at %s %s", Short(f), typ, pos, msg), Trace: c.TraceOf(cc.St, 30)})
			}
			release := func(cc *ai.CallCtx, v *ai.V) bool {
				w := resource(v)
				k, ok := open(cc.St, w)
				if !ok {
					return false
				}
				note(relSites, cc.Instr)
				// a compressor that still has data for it
				var ws []string
				for wk := range cc.St.Marks {
					ws = append(ws, wk)
				}
				sort.Strings(ws)
				for _, wk := range ws {
					if !strings.HasPrefix(wk, "wrap|") {
						continue
					}
					t := cc.St.Marks[wk]
					if t.K != ai.KTuple {
						continue
					}
					if _, stillOpen := open(cc.St, t.Args[0]); stillOpen && t.Args[0] != w && reaches(cc.St, t.Args[1], w, map[*ai.V]bool{}) {
						_, typ := siteOf(k)
						_, wt := siteOf(wk)
						f := TopFn(cc.Instr.Parent())
						r.Add(Finding{Rule: "closed-before-its-wrapper", Key: "order|" + typ + "|" + Short(f), Pos: c.Pos(cc.Instr.Pos()),
							Msg: fmt.Sprintf("%s: the %s is closed while the %s that writes to it has not been closed, so what that still holds is lost", Short(f), typ, wt), Trace: c.TraceOf(cc.St, 30)})
					}
				}
				delete(cc.St.Marks, k)
				for _, wk := range ws {
					if t := cc.St.Marks[wk]; strings.HasPrefix(wk, "wrap|") && t.K == ai.KTuple && t.Args[0] == w {
						delete(cc.St.Marks, wk)
					}
				}
				if _, typ := siteOf(k); typ != "context.CancelFunc" && typ != "*time.Ticker" {
					cc.St.Marks["closed|"+k] = w
				}
				return true
			}
			e.Hooks.Recv = func(e *ai.Engine, st *ai.State, ch *ai.V, in ssa.Instruction) {
				// a cancelled context holds nothing
				if ch.K == ai.KExpr && ch.S == "done" {
					if k, ok := open(st, ch.Args[0]); ok {
						delete(st.Marks, k)
					}
				}
			}
			e.Hooks.Send = func(e *ai.Engine, st *ai.State, ch, val *ai.V, in ssa.Instruction) {
				for k, w := range st.Marks {
					if strings.HasPrefix(k, "open|") && reaches(st, val, w, map[*ai.V]bool{}) {
						delete(st.Marks, k)
					}
				}
			}
			e.Hooks.Call = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
				e, st := cc.E, cc.St
				name := ""
				recv := false
				switch {
				case cc.Method != nil:
					name, recv = cc.Method.Name(), true
				case cc.Callee != nil:
					name, recv = cc.Callee.Name(), cc.Callee.Signature.Recv() != nil
				}
				if cc.Callee == nil && cc.Method == nil && cc.FnV != nil {
					// a cancel function
					if release(cc, cc.FnV) {
						return []ai.Outcome{{St: st}}, true
					}
				}
				if len(st.Marks) > 0 {
					for i, a := range cc.Args {
						if i == 0 && recv {
							use(cc, a, name)
						} else if v := strip(a); v != nil {
							use(cc, a, "")
						}
					}
				}
				inlined := cc.Callee != nil && len(cc.Callee.Blocks) > 0 && e.Inline(cc.Callee)
				if recv && len(cc.Args) > 0 {
					if releases(name) {
						w := resource(cc.Args[0])
						k, ok := open(st, w)
						if ok && (!inlined || strings.HasPrefix(k, "pool|")) {
							release(cc, cc.Args[0])
							if cc.Sig().Results().Len() == 0 {
								return []ai.Outcome{{St: st}}, true
							}
							return []ai.Outcome{{St: st, Ret: cc.OpaqueResult(st)}}, true
						}
					}
					if w := resource(cc.Args[0]); w != nil {
						if k, ok := open(st, w); ok && strings.HasPrefix(k, "pool|") {
							if cc.Sig().Results().Len() == 1 && !ai.IsError(cc.Sig().Results().At(0).Type()) {
								return []ai.Outcome{{St: st, Ret: e.Expr("part", w)}}, true
							}
							if inlined {
								// the codec's own methods
								if cc.Sig().Results().Len() == 0 {
									return []ai.Outcome{{St: st}}, true
								}
								return []ai.Outcome{{St: st, Ret: cc.OpaqueResult(st)}}, true
							}
						}
						a := strip(cc.Args[0])
						if a.K == ai.KExpr && a.S == "part" && cc.Sig().Results().Len() == 1 && !inlined {
							switch cc.Sig().Results().At(0).Type().Underlying().(type) {
							case *types.Slice, *types.Pointer, *types.Interface:
								if !ai.IsError(cc.Sig().Results().At(0).Type()) {
									return []ai.Outcome{{St: st, Ret: e.Expr("part", w)}}, true
								}
							}
						}
					}
				}
				if name == "Done" && recv {
					if a := strip(cc.Args[0]); a.K == ai.KExpr && a.S == "ctx" {
						return []ai.Outcome{{St: st, Ret: e.Expr("done", a.Args[0])}}, true
					}
				}
				i, kind := x.acquires(cc.Sig())
				full := cc.Name
				if kind == mustClose && inlined || kind != noRelease && noResource[full] {
					i = -1
				}
				if cc.Callee == nil && cc.Method == nil {
					i = -1
				}
				if cc.Callee != nil && recv && kind == mustClose && strings.HasPrefix(PkgPath(cc.Callee), load.ModPath) && getter(cc.Callee) {
					i = -1
				}
				// what is passed on is taken over
				if !inlined && !borrows(cc) {
					for k, w := range st.Marks {
						if !strings.HasPrefix(k, "open|") {
							continue
						}
						for n, a := range cc.Args {
							if n == 0 && recv && resource(a) == w || x.readsOnly(cc, n) {
								continue
							}
							if reaches(st, a, w, map[*ai.V]bool{}) {
								delete(st.Marks, k)
								break
							}
						}
					}
				}
				if i < 0 {
					return nil, false
				}
				res := cc.Sig().Results()
				t := res.At(i).Type()
				tn := types.TypeString(t, func(p *types.Package) string { return p.Name() })
				note(sites, cc.Instr)
				bad := st.Clone()
				mk := func(st *ai.State, ok bool) *ai.V {
					var vs []*ai.V
					for j := 0; j < res.Len(); j++ {
						switch {
						case ai.IsError(res.At(j).Type()) && ok:
							vs = append(vs, e.Nil())
						case ai.IsError(res.At(j).Type()):
							vs = append(vs, cc.Fresh(st, "err", true))
						case j == i && !ok:
							vs = append(vs, e.Nil())
						case j == i:
							vs = append(vs, cc.Fresh(st, "res", true))
						case tn == "context.CancelFunc" && j == 0:
							vs = append(vs, e.Expr("ctx", cc.Fresh(st, "res", true)))
						default:
							vs = append(vs, cc.Fresh(st, fmt.Sprint("r", j), false))
						}
					}
					if len(vs) == 1 {
						return vs[0]
					}
					return e.Tuple(vs...)
				}
				pre := "open|"
				if kind == mayClose {
					pre = "pool|"
				}
				key := fmt.Sprintf("%s|%s|%s", c.Pos(cc.Instr.Pos()), Short(TopFn(cc.Instr.Parent())), tn)
				if w, ok := st.Marks[pre+key]; ok {
					st.Marks[pre+"earlier|"+key] = w
				}
				ret := mk(st, true)
				v := ret
				if ret.K == ai.KTuple {
					v = ret.Args[i]
				}
				for k, w := range st.Marks {
					if w == v && strings.HasPrefix(k, "closed|") {
						delete(st.Marks, k)
					}
				}
				st.Marks[pre+key] = v
				if wraps(cc) {
					st.Marks["wrap|"+key] = e.Tuple(v, cc.Args[0])
				}
				outs := []ai.Outcome{{St: st, Ret: ret}}
				if res.Len() > 1 && ai.IsError(res.At(res.Len()-1).Type()) {
					outs = append(outs, ai.Outcome{St: bad, Ret: mk(bad, false)})
				}
				return outs, true
			}
			e.Hooks.Return = func(e *ai.Engine, st *ai.State, ret *ai.V) {
				r.Inc("exits_checked", 1)
				rets := []*ai.V{ret}
				if ret != nil && ret.K == ai.KTuple {
					rets = ret.Args
				}
				for _, v := range rets {
					if v = strip(v); v == nil {
						continue
					}
					if k, ok := closedAt(st, resource(v)); ok && strings.HasPrefix(k, "closed|pool|") {
						pos, typ := siteOf(k)
						r.Add(Finding{Rule: "used-after-close", Key: "used-after-close|" + typ + "|" + Short(root), Pos: pos,
							Msg: fmt.Sprintf("%s: what it returns belongs to the %s opened here, which it has put in a pool, where others can take it", Short(root), typ), Trace: c.TraceOf(st, 30)})
					}
				}
				for k, w := range st.Marks {
					if !strings.HasPrefix(k, "open|") {
						continue
					}
					r.Inc("open_at_exit_examined", 1)
					if kept(st, ret, w) {
						continue
					}
					pos, typ := siteOf(k)
					p := strings.Split(k, "|")
					fn := p[len(p)-2]
					r.Add(Finding{Rule: "not-closed", Key: "not-closed|" + typ + "|" + fn, Pos: pos,
						Msg: fmt.Sprintf("%s: the %s opened here is neither released nor handed on when %s returns", fn, typ, Short(root)), Trace: c.TraceOf(st, 30)})
				}
			}
		},
	})
	r.Counts["acquisition_sites"] = len(sites)
	r.Counts["releases_seen"] = len(relSites)
	var l []string
	for in := range sites {
		l = append(l, c.Pos(in.Pos())+" "+Short(in.Parent()))
	}
	sort.Strings(l)
	for _, s := range l {
		r.Sample(s)
		Debugf("acquires %s\n", s)
	}
}

// exchanges: closers can go in or out of the function; others are analysed on their own.
func (x *resources) exchanges(f *ssa.Function) bool {
	mentions := func(t types.Type) bool {
		if x.kind(t) != noRelease {
			return true
		}
		if s, ok := t.Underlying().(*types.Signature); ok {
			return s.Params().Len() == 0
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if x.kind(s.Field(i).Type()) != noRelease {
					return true
				}
			}
		}
		return false
	}
	for _, p := range f.Params {
		if mentions(p.Type()) {
			return true
		}
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if mentions(res.At(i).Type()) {
			return true
		}
	}
	return false
}

// getter: returns something the receiver keeps.
func getter(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		if _, ok := in.(ssa.CallInstruction); ok {
			return false
		}
	}
	return true
}

var _ = token.NoPos
