package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

// returnsHandle reports whether the obligation k is handed to the caller: the result carries a
// function (or a token) through which it can be discharged.
func returnsHandle(st *ai.State, ret, k *ai.V) bool {
	if ret == nil {
		return false
	}
	seen := map[*ai.V]bool{}
	var work []*ai.V
	push := func(v *ai.V) {
		if v != nil && !seen[v] {
			seen[v] = true
			work = append(work, v)
		}
	}
	push(ret)
	hasFn := false
	glob := map[string]bool{}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.K == ai.KFn {
			hasFn = true
			globals(v.Fn, glob)
		}
		for _, a := range v.Args {
			push(a)
		}
		for m, x := range st.Mem {
			if m == v || m.K == ai.KField && m.Args[0] == v {
				push(x)
			}
		}
	}
	if r := k; true {
		if ai.IsToken(k) {
			r = k.Args[0]
		}
		if r = r.Root(); r.K == ai.KGlobal && glob[r.S] {
			return true
		}
	}
	if ai.IsToken(k) {
		return seen[k.Args[0]]
	}
	return hasFn && (seen[k] || seen[k.Root()])
}

// probe: VerifyUnlocked exists to try locks from goroutines that are abandoned on timeout.
func probe(root *ssa.Function) bool { return Short(root) == "(*rankdb.List).VerifyUnlocked" }

// escapes reports whether the object a is reachable from the result.
func escapes(st *ai.State, ret, a *ai.V) bool {
	if ret == nil {
		return false
	}
	seen := map[*ai.V]bool{}
	var rec func(v *ai.V) bool
	rec = func(v *ai.V) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v == a {
			return true
		}
		for _, x := range v.Args {
			if rec(x) {
				return true
			}
		}
		for m, x := range st.Mem {
			if (m == v || m.K == ai.KField && m.Args[0] == v) && rec(x) {
				return true
			}
		}
		return false
	}
	return rec(ret)
}

func globals(fn *ssa.Function, out map[string]bool) {
	EachInstr(fn, func(in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			if g, ok := (*op).(*ssa.Global); ok {
				out[g.RelString(nil)] = true
			}
		}
	})
}

// lockRun is one pass over all entry points collecting everything about locks, tokens and wait groups.
type lockRun struct {
	once    sync.Once
	r       *Result
	leaks   []Finding // locks
	tok     []Finding
	admit   []Finding // updates outside an admitted request
	wg      []Finding
	self    []Finding // self deadlock
	edges   map[string]*orderEdge
	writers map[string]bool

	handOvers []handOver
	lockedIn  map[*ssa.Function][]string // classes of locks taken in a function
}

// handOver: a blocking channel operation while a lock is held.
type handOver struct {
	key, dir, class string
	in              ssa.Instruction
	root            string
	trace           []string
}

// chanField names the field of a struct of the module that a channel is kept in.
func chanField(v ssa.Value) string {
	u, ok := resolveOnce(v, 0).(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	r := fieldRef(fa)
	return r.T + "." + fieldName2(fa)
}

// stuck are the hand-overs that wait for a goroutine which needs the lock held.
func (lr *lockRun) stuck(c *Ctx) []Finding {
	var out []Finding
	seen := map[string]bool{}
	for _, h := range lr.handOvers {
		k := h.key + "|" + h.class + "|" + Short(TopFn(h.in.Parent()))
		if seen[k] {
			continue
		}
		seen[k] = true
		for _, fn := range c.P.Funcs {
			if c.P.SPkg[PkgPath(fn)] == nil || TopFn(fn) == TopFn(h.in.Parent()) {
				continue
			}
			answers := false
			EachInstr(fn, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Send:
					answers = answers || h.dir == "recv" && chanField(x.Chan) == h.key
				case *ssa.UnOp:
					answers = answers || h.dir == "send" && x.Op == token.ARROW && chanField(x.X) == h.key
				case *ssa.Select:
					for _, s := range x.States {
						answers = answers || (s.Dir == types.RecvOnly) == (h.dir == "send") && chanField(s.Chan) == h.key
					}
				}
			})
			if answers && slices.Contains(lr.lockedIn[TopFn(fn)], h.class) {
				out = append(out, Finding{Rule: "wait-holding", Key: "wait-holding|" + k, Pos: c.Pos(h.in.Pos()), Trace: h.trace,
					Msg: fmt.Sprintf("%s waits on %s while it holds %s, which %s needs before it can go on to answer; entry point %s", Short(TopFn(h.in.Parent())), h.key, h.class, Short(TopFn(fn)), h.root)})
				break
			}
		}
	}
	return out
}

// orderEdge: a lock of class To is acquired while one of class From is held.
type orderEdge struct {
	From, To       string
	FromTag, ToTag string   // which of the owner's members the lock belongs to, "" unknown
	HW, W          bool     // held for writing, acquired for writing
	Dir            int      // +1/-1: To is the next/previous element of the slice From is in
	Gates          []string // other locks held, with mode
	Pos            string
	Root           string
	Where          string
	A, B           string
	Trace          []string
	N              int
}

func (e *orderEdge) key() string {
	return fmt.Sprintf("%s/%s -> %s/%s %v %v %d %v", e.From, e.FromTag, e.To, e.ToTag, e.HW, e.W, e.Dir, e.Gates)
}

// lockTag is the member of the entry point's receiver through which a lock is reached.
func lockTag(v *ai.V) string {
	tag := ""
	for {
		switch v.K {
		case ai.KField:
			tag = v.S
			v = v.Args[0]
		case ai.KIndex, ai.KDeref, ai.KIface:
			v = v.Args[0]
		case ai.KParam:
			return tag
		default:
			return ""
		}
	}
}

// indexDir compares the slice positions of two locks of the same slice.
func indexDir(a, b *ai.V) int {
	find := func(v *ai.V) *ai.V {
		for {
			switch v.K {
			case ai.KIndex:
				return v
			case ai.KField, ai.KDeref, ai.KIface:
				v = v.Args[0]
			default:
				return nil
			}
		}
	}
	x, y := find(a), find(b)
	if x == nil || y == nil || x.Args[0] != y.Args[0] {
		return 0
	}
	xb, xo, ok1 := offset(x.Args[1])
	yb, yo, ok2 := offset(y.Args[1])
	if !ok1 || !ok2 || xb != yb || xo == yo {
		return 0
	}
	if yo > xo {
		return 1
	}
	return -1
}

// offset splits v into a base plus a constant.
func offset(v *ai.V) (*ai.V, int64, bool) {
	var off int64
	for v.K == ai.KExpr && (v.S == "+" || v.S == "-") && len(v.Args) == 2 && v.Args[1].K == ai.KConst && v.Args[1].C != nil {
		n, ok := constant.Int64Val(v.Args[1].C)
		if !ok {
			return nil, 0, false
		}
		if v.S == "-" {
			n = -n
		}
		off += n
		v = v.Args[0]
	}
	if v.K == ai.KConst && v.C != nil {
		n, ok := constant.Int64Val(v.C)
		return nil, off + n, ok
	}
	return v, off, true
}

func gatesConflict(a, b *orderEdge) bool {
	for _, x := range a.Gates {
		for _, y := range b.Gates {
			if x[:len(x)-2] == y[:len(y)-2] && (strings.HasSuffix(x, "W") || strings.HasSuffix(y, "W")) {
				return true
			}
		}
	}
	return false
}

// cycles finds sets of up to three acquisitions that can wait for each other in a circle: each one holds
// what the previous one wants, and no two of them exclude each other through another lock they hold.
func (lr *lockRun) cycles(writers map[string]bool) [][]*orderEdge {
	var es []*orderEdge
	var ks []string
	for k := range lr.edges {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		es = append(es, lr.edges[k])
	}
	meets := func(a, b *orderEdge) bool { // a wants what b holds
		if a.To != b.From || a.ToTag != "" && b.FromTag != "" && a.ToTag != b.FromTag {
			return false
		}
		return a.W || b.HW || writers[a.To]
	}
	var out [][]*orderEdge
	seen := map[string]bool{}
	emit := func(c ...*orderEdge) {
		var n []string
		for _, e := range c {
			n = append(n, e.From+"->"+e.To+"@"+e.Where)
		}
		sort.Strings(n)
		if k := strings.Join(n, ";"); !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	for i, a := range es {
		for j := i; j < len(es); j++ {
			b := es[j]
			if gatesConflict(a, b) {
				continue
			}
			if meets(a, b) && meets(b, a) {
				if a.From == a.To && a.Dir != 0 && a.Dir == b.Dir {
					// both walk the slice in the same direction
				} else if a == b && a.FromTag != "" && a.ToTag != "" && a.FromTag != a.ToTag {
				} else {
					emit(a, b)
				}
				continue
			}
			for k := j; k < len(es); k++ {
				c := es[k]
				if i == j || j == k || gatesConflict(a, c) || gatesConflict(b, c) || a.From == a.To || b.From == b.To || c.From == c.To {
					continue
				}
				if meets(a, b) && meets(b, c) && meets(c, a) || meets(a, c) && meets(c, b) && meets(b, a) {
					emit(a, b, c)
				}
			}
		}
	}
	return out
}

var theLockRun lockRun

func (c *Ctx) lockRel() *ai.Relevance {
	c.relOnce.Do(func() {
		c.rel = ai.NewRelevance(c.P.Funcs, func(in ssa.Instruction) bool { return ai.LockEffect(in) || mutatorCall(in) != "" })
	})
	return c.rel
}

func locks(c *Ctx) *lockRun {
	lr := &theLockRun
	lr.once.Do(func() {
		lr.edges = map[string]*orderEdge{}
		lr.writers = map[string]bool{}
		lr.lockedIn = map[*ssa.Function][]string{}
		called := c.calledInPkg()
		r := NewResult()
		lr.r = r
		var lmu sync.Mutex
		lockSites := map[ssa.Instruction]bool{}
		lockClasses := map[string]int{}
		tokSites := map[ssa.Instruction]bool{}
		wgSites := map[ssa.Instruction]bool{}
		wgGo := map[ssa.Instruction]bool{}
		mutSites := map[ssa.CallInstruction]bool{}
		mutRoots := map[*ssa.Function]bool{}
		// With an update limit configured, the token buckets of the server exist.
		buckets := c.bucketGlobals()
		seen := map[string]bool{}
		fresh := func(v *ai.V) bool { return v.K != ai.KAlloc && v.Root().K == ai.KAlloc }
		add := func(dst *[]Finding, f Finding) {
			lmu.Lock()
			defer lmu.Unlock()
			if seen[f.Key] {
				return
			}
			seen[f.Key] = true
			*dst = append(*dst, f)
		}
		c.Simulate(r, SimOpts{
			Rel: c.lockRel(),
			Init: func(e *ai.Engine, root *ssa.Function, st *ai.State) {
				for _, g := range buckets {
					e.KnownNonNil[e.Deref(e.Global(g))] = true
				}
			},
			Setup: func(e *ai.Engine, root *ssa.Function) {
				// VerifyUnlocked exists to probe locks from goroutines that are abandoned on timeout.
				if PkgPath(root) == load.ModPath+"/api" {
					e.Hooks.Opaque = func(cc *ai.CallCtx, outs []ai.Outcome) []ai.Outcome {
						m := mutatorCall(cc.Instr)
						if m == "" {
							return outs
						}
						ok := false
						for k := range cc.St.Held {
							ok = ok || ai.IsToken(k)
						}
						lmu.Lock()
						mutSites[cc.Instr] = true
						mutRoots[root] = true
						lmu.Unlock()
						if !ok {
							add(&lr.admit, Finding{Rule: "update-not-admitted", Key: "update-not-admitted|" + m + "|" + Short(root), Pos: c.Pos(cc.Pos()), Trace: c.TraceOf(cc.St, 40),
								Msg: fmt.Sprintf("request handler %s calls %s on a path where it holds no update token, so the update is neither limited nor waited for at shutdown", Short(root), m)})
						}
						return outs
					}
				}
				probe := probe(root)
				handOver := func(e *ai.Engine, st *ai.State, chv ssa.Value, dir string, in ssa.Instruction) {
					key := chanField(chv)
					if key == "" || probe || called[root] {
						return
					}
					for h := range st.Held {
						if ai.IsToken(h) || ai.IsWaitGroup(h) || ai.IsInherited(h) || ai.IsPending(h) || fresh(h) {
							continue
						}
						lmu.Lock()
						lr.handOvers = append(lr.handOvers, handOver{key, dir, LockClass(h), in, Short(root), c.TraceOf(st, 30)})
						lmu.Unlock()
					}
				}
				e.Hooks.Recv = func(e *ai.Engine, st *ai.State, ch *ai.V, in ssa.Instruction) {
					if x, ok := in.(*ssa.UnOp); ok {
						handOver(e, st, x.X, "recv", in)
					}
				}
				e.Hooks.Send = func(e *ai.Engine, st *ai.State, ch, val *ai.V, in ssa.Instruction) {
					if x, ok := in.(*ssa.Send); ok {
						handOver(e, st, x.Chan, "send", in)
					}
				}
				e.Hooks.Lock = func(ev *ai.LockEvent) {
					if probe && (ev.Op == "wg" || ev.Op == "wg-go") {
						return
					}
					cls := LockClass(ev.Lock)
					fn := ""
					if ev.At != nil {
						fn = Short(TopFn(ev.At.Parent()))
					}
					lmu.Lock()
					switch ev.Op {
					case "Lock", "RLock":
						lockSites[ev.At] = true
						lockClasses[cls]++
						if ev.At != nil {
							lr.lockedIn[TopFn(ev.At.Parent())] = append(lr.lockedIn[TopFn(ev.At.Parent())], cls)
						}
						if ev.Op == "Lock" {
							lr.writers[cls] = true
						}
						if probe || called[root] || fresh(ev.Lock) {
							break
						}
						for h, hi := range ev.St.Held {
							if ai.IsToken(h) || ai.IsWaitGroup(h) || ai.IsInherited(h) || h == ev.Lock || fresh(h) {
								continue
							}
							ed := &orderEdge{From: LockClass(h), To: cls, FromTag: lockTag(h), ToTag: lockTag(ev.Lock), HW: hi.W, W: ev.Op == "Lock", Dir: indexDir(h, ev.Lock)}
							for g, gi := range ev.St.Held {
								if ai.IsInherited(g) {
									g = g.Args[0]
								}
								if g != h && g != ev.Lock && !g.Any(func(x *ai.V) bool { return x.K == ai.KIndex }) && !ai.IsToken(g) && !ai.IsWaitGroup(g) {
									m := " R"
									if gi.W {
										m = " W"
									}
									ed.Gates = append(ed.Gates, LockClass(g)+m)
								}
							}
							sort.Strings(ed.Gates)
							ed.Gates = slices.Compact(ed.Gates)
							k := ed.key()
							if x := lr.edges[k]; x != nil {
								x.N++
								continue
							}
							ed.N = 1
							ed.Pos, ed.Root, ed.Where, ed.Trace, ed.A, ed.B = c.Pos(ev.At.Pos()), Short(root), fn, c.TraceOf(ev.St, 30), h.String(), ev.Lock.String()
							lr.edges[k] = ed
						}
					case "Unlock", "RUnlock":
						lockSites[ev.At] = true
					case "take", "put":
						tokSites[ev.At] = true
					case "wg":
						if ev.Instr != nil {
							wgSites[ev.At] = true
						}
					case "wg-go":
						wgGo[ev.At] = true
					}
					lmu.Unlock()
					if ev.Problem == "" {
						return
					}
					pos := "-"
					if ev.At != nil {
						pos = c.Pos(ev.At.Pos())
					}
					f := Finding{Rule: ev.Problem, Key: ev.Problem + "|" + cls + "|" + fn, Pos: pos, Trace: c.TraceOf(ev.St, 40)}
					switch ev.Problem {
					case "relock", "upgrade", "recursive-rlock":
						h := ev.St.Held[ev.Lock]
						f.Msg = fmt.Sprintf("%s: %s of %s (%v) in %s while the same goroutine already holds it since %s; entry point %s", ev.Problem, ev.Op, cls, ev.Lock, fn, h.Site, Short(root))
						add(&lr.self, f)
					case "wait-holding":
						f.Msg = fmt.Sprintf("%s waits for a goroutine that needs %s (%v), which it holds itself; entry point %s", fn, cls, ev.Lock, Short(root))
						add(&lr.self, f)
					case "unlock-not-held":
						f.Msg = fmt.Sprintf("%s of %s (%v) in %s on a path where it is not held; entry point %s", ev.Op, cls, ev.Lock, fn, Short(root))
						add(&lr.leaks, f)
					case "token-not-held":
						f.Msg = fmt.Sprintf("a token is put into %s in %s on a path that never took one; entry point %s", cls, fn, Short(root))
						// handles returned to callers run without the take in sight
						if _, isParam := ev.At.Parent(), false; !isParam && !strings.HasSuffix(fn, ".Release") {
							add(&lr.tok, f)
						}
					case "token-retake":
						f.Msg = fmt.Sprintf("%s takes a second token from %s while holding one, which blocks forever when the bucket holds a single token; entry point %s", fn, cls, Short(root))
						add(&lr.tok, f)
					case "wg-unbalanced":
						f.Msg = fmt.Sprintf("goroutine started in %s calls Done on %s a different number of times depending on the path, so Wait never returns or panics; entry point %s", fn, cls, Short(root))
						add(&lr.wg, f)
					case "wg-iteration-unbalanced":
						f.Msg = fmt.Sprintf("a loop in %s releases %s a different number of times per item depending on the path, but adds one per item; entry point %s", fn, cls, Short(root))
						add(&lr.wg, f)
					case "wg-loop-left-early":
						f.Msg = fmt.Sprintf("%s waits for %s after leaving the loop that starts one goroutine per added item early; entry point %s", fn, cls, Short(root))
						add(&lr.wg, f)
					case "wg-never-done":
						f.Msg = fmt.Sprintf("%s waits for %s but a path adds to it without any started goroutine calling Done; entry point %s", fn, cls, Short(root))
						add(&lr.wg, f)
					}
				}
			},
			Out: func(e *ai.Engine, root *ssa.Function, outs []ai.Outcome) {
				r.Inc("exits_checked", len(outs))
				for _, o := range outs {
					for _, k := range o.St.SortedHeld() {
						if ai.IsPending(k) && !probe(root) && !escapes(o.St, o.Ret, k.Args[0]) {
							h := o.St.Held[k]
							where := "?"
							if h.At != nil {
								where = Short(TopFn(h.At.Parent()))
							}
							pos := "-"
							if o.St.Tr != nil {
								pos = c.Pos(o.St.Tr.Pos)
							}
							add(&lr.wg, Finding{Rule: "not-awaited", Key: "not-awaited|" + where, Pos: pos, Trace: c.TraceOf(o.St, 40),
								Msg: fmt.Sprintf("%s can return at %s although the goroutines started at %s (in %s) were not waited for", Short(root), pos, h.Site, where)})
							Debugf("PEND %v X=%d %s\n", k, h.X, Short(root))
						}
						if ai.IsWaitGroup(k) {
							continue
						}
						if returnsHandle(o.St, o.Ret, k) {
							r.Inc("handles_returned", 1)
							continue
						}
						h := o.St.Held[k]
						cls := LockClass(k)
						what := "lock " + cls
						dst := &lr.leaks
						if ai.IsToken(k) {
							what = "token of " + cls
							dst = &lr.tok
						}
						where := "?"
						pos := "-"
						if o.St.Tr != nil {
							pos = c.Pos(o.St.Tr.Pos)
						}
						where = Short(root)
						add(dst, Finding{Rule: "leak", Key: "leak|" + cls + "|" + where, Pos: pos,
							Msg:   fmt.Sprintf("%s (%v) acquired at %s is still held when %s returns at %s", what, k, h.Site, where, pos),
							Trace: c.TraceOf(o.St, 60)})
					}
				}
			},
		})
		r.Counts["lock_operation_sites"] = len(lockSites)
		r.Counts["lock_classes"] = len(lockClasses)
		r.Counts["token_sites"] = len(tokSites)
		r.Counts["wait_sites"] = len(wgSites)
		r.Counts["done_goroutine_sites"] = len(wgGo)
		r.Counts["update_call_sites"] = len(mutSites)
		r.Counts["updating_handlers"] = len(mutRoots)
		r.Counts["lock_order_edges"] = len(lr.edges)
		var cs []string
		for k := range lockClasses {
			cs = append(cs, k)
		}
		sort.Strings(cs)
		r.Samples = append(r.Samples, "lock classes: "+strings.Join(cs, ", "))
	})
	return lr
}

// DebugLocks prints the raw result.
func DebugLocks(c *Ctx) {
	lr := locks(c)
	for n, l := range map[string][]Finding{"leak": lr.leaks, "tok": lr.tok, "wg": lr.wg, "self": lr.self, "admit": lr.admit} {
		for _, f := range l {
			fmt.Println(n, f.Key, f.Pos, f.Msg)
		}
	}
	fmt.Println(lr.r.Counts, lr.r.Notes, lr.r.Samples)
	var ks []string
	for k, e := range lr.edges {
		if os.Getenv("VSA_EDGES") == "" {
			break
		}
		ks = append(ks, fmt.Sprintf("%s  (%s in %s from %s) %s %s", k, e.Pos, e.Where, e.Root, e.A, e.B))
	}
	for _, cy := range lr.cycles(lr.writers) {
		fmt.Println("CYCLE")
		for _, e := range cy {
			fmt.Println("   ", e.key(), e.Pos, e.Where, e.Root)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k)
	}
}

// mutators are the operations that change stored lists.
var mutators = map[string]bool{
	"(*rankdb.List).Insert": true, "(*rankdb.List).UpdateElements": true, "(*rankdb.List).DeleteElements": true,
	"(*rankdb.List).DeleteAll": true, "(*rankdb.List).Populate": true, "(*rankdb.List).Reindex": true,
	"(*rankdb.List).Repair": true, "(*rankdb.List).ForceSplit": true,
	"(*rankdb.Manager).DeleteList": true, "(*rankdb.Lists).Add": true, "(*rankdb.Lists).Delete": true,
	"rankdb.NewList": true, "rankdb.RestoreList": true,
}

func mutatorCall(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	f := ci.Common().StaticCallee()
	if f == nil {
		return ""
	}
	if n := Short(f); mutators[n] {
		return n
	}
	return ""
}

func (c *Ctx) bucketGlobals() []*ssa.Global {
	var out []*ssa.Global
	for _, sp := range c.P.SPkg {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && ai.IsBucket(g.Type().(*types.Pointer).Elem()) {
				out = append(out, g)
			}
		}
	}
	return out
}
