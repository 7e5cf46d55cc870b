package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

// gacc is one access to a shared field in one lock context.
type gacc struct {
	field   string
	mapUpd  bool
	write   bool
	single  string // the goroutine, when each object has one
	locks   []glock
	pos, fn string
	root    string
	obj     string
	trace   []string
	n       int
}

type glock struct {
	cls        string
	w, inherit bool
}

func (g glock) String() string {
	s := g.cls
	if g.inherit {
		s = "^" + s
	}
	if g.w {
		return s + ":W"
	}
	return s + ":R"
}

// sharedType: named structs of the hand-written packages.
func (c *Ctx) sharedType(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), load.ModPath) {
		return ""
	}
	p := n.Obj().Pkg().Path()
	if strings.Contains(p, "/api/app") || strings.Contains(p, "/api/client") || strings.Contains(p, "/api/tool") || strings.Contains(p, "/api/design") {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p, load.ModPath), "/") + "." + n.Obj().Name()
}

// accessedField names the field behind an address: its own word ("T.f"), the contents of the slice in
// it ("T.f[]"), or all fields of an element ("T.*"). "" when it is not shared state.
func (c *Ctx) accessedField(p *ai.V, t types.Type) string {
	if t != nil {
		if o := c.sharedType(t); o != "" {
			return o + ".*"
		}
	}
	suffix := ""
	for i := 0; i < 8; i++ {
		switch p.K {
		case ai.KField:
			if p.T != nil {
				if o := c.sharedType(p.T); o != "" {
					return o + "." + p.S + suffix
				}
			}
			// field of an anonymous or foreign struct: the field that holds it
			p = p.Args[0]
			if p.K == ai.KDeref {
				return ""
			}
		case ai.KIndex:
			p = p.Args[0]
			if p.K == ai.KDeref {
				p = p.Args[0]
			}
			suffix = "[]"
		case ai.KGlobal:
			if strings.HasPrefix(p.S, load.ModPath) {
				return "var " + strings.TrimPrefix(strings.TrimPrefix(p.S, load.ModPath), "/") + suffix
			}
			return ""
		default:
			return ""
		}
	}
	return ""
}

// sameData: the two names can stand for the same memory.
func sameData(a, b string) bool {
	if a == b {
		return true
	}
	i, j := strings.LastIndexByte(a, '.'), strings.LastIndexByte(b, '.')
	return i > 0 && j > 0 && a[:i] == b[:j] && (a[i:] == ".*" || b[j:] == ".*")
}

// escape is a map handed to the caller of an exported function.
type escape struct {
	field, root, pos string
	locks            []string
	trace            []string
}

func (c *Ctx) fieldAccesses(r *Result, w *workers) ([]*gacc, []escape, []Finding) {
	interesting := func(fa *ssa.FieldAddr) bool {
		return c.sharedType(fa.X.Type().Underlying().(*types.Pointer).Elem()) != ""
	}
	rel := ai.NewRelevance(c.P.Funcs, func(in ssa.Instruction) bool {
		if fa, ok := in.(*ssa.FieldAddr); ok && interesting(fa) {
			return true
		}
		return ai.LockEffect(in)
	})
	called := c.calledInPkg()
	accs := map[string]*gacc{}
	var mu sync.Mutex
	record := func(e *ai.Engine, st *ai.State, ptr *ai.V, in ssa.Instruction, write bool, root *ssa.Function, contents string) {
		if called[root] || probe(root) || !concurrentRoot(root) {
			return
		}
		by, single := Short(root), ""
		if !sharedRoot(ptr, Short(root) == "rankdb.NewList") && !published(e, st, ptr) {
			g := service(st, ptr, root)
			if g == nil {
				return // produced by this operation
			}
			// a goroutine of the object this constructor returns
			by = Short(g) + " started by " + by
			if w.body[g] == nil {
				single = Short(g)
			}
		}
		var et types.Type
		switch x := in.(type) {
		case *ssa.UnOp:
			et = x.Type()
		case *ssa.Store:
			et = x.Val.Type()
		}
		f := c.accessedField(ptr, et)
		if f == "" || valueType(f) {
			return
		}
		f += contents
		mapUpd := contents == "{}" && write
		a := &gacc{field: f, write: write, n: 1, mapUpd: mapUpd, single: single}
		for h, hi := range st.Held {
			if ai.IsToken(h) || ai.IsWaitGroup(h) {
				continue
			}
			g := glock{w: hi.W}
			if ai.IsInherited(h) {
				h, g.inherit = h.Args[0], true
			}
			g.cls = LockClass(h)
			a.locks = append(a.locks, g)
		}
		sort.Slice(a.locks, func(i, j int) bool { return a.locks[i].String() < a.locks[j].String() })
		a.fn = Short(in.Parent())
		k := fmt.Sprint(f, write, mapUpd, a.locks, Short(TopFn(in.Parent())), single)
		mu.Lock()
		defer mu.Unlock()
		if x := accs[k]; x != nil {
			x.n++
			return
		}
		a.pos, a.root, a.obj = c.Pos(in.Pos()), by, ptr.String()
		a.trace = c.TraceOf(st, 30)
		accs[k] = a
	}
	rec := func(e *ai.Engine, st *ai.State, ptr *ai.V, in ssa.Instruction, write bool, root *ssa.Function) {
		record(e, st, ptr, in, write, root, "")
	}
	var escs []escape
	eseen := map[string]bool{}
	var found []Finding
	fseen := map[string]bool{}
	// a lock that all the goroutines exclude each other with: not one of an element of a slice or map,
	// which may be another one for each of them
	lockHeld := func(st *ai.State) bool {
		for h, hi := range st.Held {
			if hi.W && !ai.IsToken(h) && !ai.IsWaitGroup(h) && !ai.IsInherited(h) && !h.Any(func(v *ai.V) bool { return v.K == ai.KIndex }) {
				return true
			}
		}
		return false
	}
	sharedWrite := func(st *ai.State, root *ssa.Function, in ssa.Instruction, v ssa.Value, what string) {
		f := in.Parent()
		if !w.concurrent(f) {
			return
		}
		r.Inc("worker_writes_examined", 1)
		o := w.origin(v)
		if !w.shared(f, o) || lockHeld(st) {
			return
		}
		k := fmt.Sprintf("worker-write|%s|%s", Short(TopFn(f)), describe(o))
		mu.Lock()
		defer mu.Unlock()
		if fseen[k] {
			return
		}
		fseen[k] = true
		found = append(found, Finding{Rule: "worker-write", Key: k, Pos: c.Pos(in.Pos()), Trace: c.TraceOf(st, 30),
			Msg: fmt.Sprintf("%s: goroutines of %s that run at the same time all %s %s, with no lock held; entry point %s", Short(f), Short(TopFn(f)), what, describe(o), Short(root))})
	}
	sd := newStored(c, r)
	readLocked := func(e *ai.Engine, st *ai.State, v *ai.V, in ssa.Instruction, root *ssa.Function) {
		if sd == nil || v == nil || !sd.sharedOnly(e, st, v) {
			return
		}
		for h, hi := range st.Held {
			if hi.W && !ai.IsToken(h) && !ai.IsWaitGroup(h) {
				return // all of the list is locked
			}
		}
		k := "read-locked-write|" + Short(TopFn(in.Parent()))
		mu.Lock()
		defer mu.Unlock()
		if fseen[k] {
			return
		}
		fseen[k] = true
		found = append(found, Finding{Rule: "read-locked-write", Key: k, Pos: c.Pos(in.Pos()), Trace: c.TraceOf(st, 30),
			Msg: fmt.Sprintf("%s: changes elements of a segment that is locked for reading only; entry point %s", Short(in.Parent()), Short(root))})
	}
	c.Simulate(r, SimOpts{Rel: rel, MaxSteps: c.Budget(900000), Setup: func(e *ai.Engine, root *ssa.Function) {
		e.Hooks.Call = func(cc *ai.CallCtx) ([]ai.Outcome, bool) {
			g := cc.Instr.Common().StaticCallee()
			if g != nil && sd != nil {
				for i, bits := range sd.mut[g] {
					if bits&changesElems == 0 || i >= len(cc.Args) || i >= len(g.Params) {
						continue
					}
					v := cc.Args[i]
					if p, ok := g.Params[i].Type().Underlying().(*types.Pointer); ok {
						v = e.LoadFrom(cc.St, v, p.Elem())
					}
					readLocked(e, cc.St, v, cc.Instr, root)
				}
			}
			if op := strings.TrimPrefix(cc.Name, "(*container/list.List)."); op != cc.Name && len(cc.Args) > 0 {
				holders(e, cc.St, cc.Args[0], func(slot *ai.V) {
					record(e, cc.St, slot, cc.Instr, op != "Len" && op != "Front" && op != "Back", root, "<list>")
				})
			}
			if g == nil || len(g.Blocks) == 0 || c.P.SPkg[PkgPath(g)] == nil || !w.concurrent(cc.Instr.Parent()) {
				return nil, false
			}
			m := w.mutates(g)
			for i, a := range cc.Instr.Common().Args {
				if m[i] != 0 {
					sharedWrite(cc.St, root, cc.Instr, a, "change (through "+Short(g)+") the elements of")
				}
			}
			return nil, false
		}
		e.Hooks.Load = func(e *ai.Engine, st *ai.State, ptr *ai.V, in ssa.Instruction) { rec(e, st, ptr, in, false, root) }
		ctor := Short(root) == "rankdb.NewList"
		e.Hooks.Store = func(e *ai.Engine, st *ai.State, ptr, v *ai.V, in ssa.Instruction) {
			if sharedRoot(ptr, ctor) || published(e, st, ptr) {
				publish(e, st, v)
			}
			rec(e, st, ptr, in, true, root)
			for p := ptr; ; p = p.Args[0] {
				if p.K == ai.KIndex {
					readLocked(e, st, p.Args[0], in, root)
				}
				if p.K != ai.KField {
					break
				}
			}
			if s, ok := in.(*ssa.Store); ok {
				a := s.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					break
				}
				if _, ok := a.(*ssa.FreeVar); ok {
					sharedWrite(st, root, in, a, "write the variable")
				}
			}
		}
		e.Hooks.MapRead = func(e *ai.Engine, st *ai.State, m *ai.V, in ssa.Instruction) {
			holders(e, st, m, func(slot *ai.V) { record(e, st, slot, in, false, root, "{}") })
		}
		e.Hooks.MapUpd = func(e *ai.Engine, st *ai.State, m, k, v *ai.V, in ssa.Instruction) {
			if sharedRoot(m, ctor) || published(e, st, m) {
				publish(e, st, v)
			}
			holders(e, st, m, func(slot *ai.V) { record(e, st, slot, in, true, root, "{}") })
			switch x := in.(type) {
			case *ssa.MapUpdate:
				sharedWrite(st, root, in, x.Map, "write the map")
			case ssa.CallInstruction:
				sharedWrite(st, root, in, x.Common().Args[0], "delete from the map")
			}
		}
		e.Hooks.Return = func(e *ai.Engine, st *ai.State, ret *ai.V) {
			if called[root] || !Exported(root) || !concurrentRoot(root) {
				return
			}
			for _, v := range reach(st, ret) {
				if v.K != ai.KDeref || !sharedRoot(v, false) {
					continue
				}
				if f := c.accessedField(v.Args[0], nil); f != "" {
					mu.Lock()
					pos := "-"
					if st.Tr != nil {
						pos = c.Pos(st.Tr.Pos)
					}
					if k := f + "|" + Short(root); !eseen[k] {
						eseen[k] = true
						escs = append(escs, escape{f, Short(root), pos, nil, c.TraceOf(st, 30)})
					}
					mu.Unlock()
				}
			}
		}
	}})
	var l []*gacc
	for _, a := range accs {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].field+l[i].pos+l[i].root < l[j].field+l[j].pos+l[j].root })
	return l, escs, found
}

// holders calls f with the variables through which the map m was reached.
func holders(e *ai.Engine, st *ai.State, m *ai.V, f func(slot *ai.V)) {
	switch m.K {
	case ai.KDeref:
		f(m.Args[0])
	case ai.KAlloc, ai.KSym:
		for k, x := range st.Mem {
			if x == m {
				f(k)
			}
		}
	}
}

// service: the goroutine the access is made by, when p is the object the entry point creates and
// returns and the goroutine goes on working on it.
func service(st *ai.State, p *ai.V, root *ssa.Function) *ssa.Function {
	r := p.Root()
	if r.K != ai.KAlloc || r.T == nil {
		return nil
	}
	pt, ok := r.T.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	returned := false
	res := root.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		if types.Identical(t, pt.Elem()) {
			returned = true
		} else if i, ok := t.Underlying().(*types.Interface); ok && !ai.IsError(t) && types.Implements(pt, i) {
			returned = true
		}
	}
	if !returned {
		return nil
	}
	for _, f := range st.Frames {
		if f.Go {
			return f.Fn
		}
	}
	return nil
}

// publish notes that v was stored where other operations find it, with all it refers to.
func publish(e *ai.Engine, st *ai.State, v *ai.V) {
	if v == nil {
		return
	}
	switch v.K {
	case ai.KIface:
		publish(e, st, v.Args[0])
		return
	case ai.KAlloc:
	default:
		return
	}
	k := e.Field(v, "·published")
	if st.Mem[k] != nil {
		return
	}
	st.Mem[k] = e.Bool(true)
	var refs []*ai.V
	for m, x := range st.Mem {
		if m.Root() == v && x != nil && (x.K == ai.KAlloc || x.K == ai.KIface) {
			refs = append(refs, x)
		}
	}
	for _, x := range refs {
		publish(e, st, x)
	}
}

func published(e *ai.Engine, st *ai.State, p *ai.V) bool {
	r := p.Root()
	return r.K == ai.KAlloc && st.Mem[e.Field(r, "·published")] != nil
}

// sharedRoot: the object behind p existed before the operation started, or others can reach it.
func sharedRoot(p *ai.V, constructor bool) bool {
	r := p.Root()
	switch r.K {
	case ai.KParam, ai.KGlobal:
		return true
	case ai.KSym:
		if strings.HasPrefix(r.S, "join") {
			return !constructor
		}
		if (strings.HasPrefix(r.S, "lookup@") || strings.HasPrefix(r.S, "val@")) && len(r.Args) > 0 {
			return sharedRoot(r.Args[0], constructor)
		}
	}
	return false
}

// setupOnly are entry points that run before what they write is shared.
var setupOnly = map[string]string{
	"(*rankdb.Manager).NewLists":                  "documented to be called once, before the manager is used",
	"(*rankdb.Manager).LoadLists":                 "documented to be called once, before the manager is used",
	"api.StartServices":                           "configuration; runs once at startup",
	"api.StartServer":                             "configuration",
	"(*api.duration).UnmarshalText":               "configuration",
	"(*blobstore/dynamo.Store).SetAttributeNames": "configuration",
	"(*blobstore/memstore.MemBlobStore).Debug":    "test helper",
	"rankdb.RestoreList":                          "the list is registered after it returned",
	"rankdb.NewSegment":                           "the segment is added to a list after it returned",
}

// concurrentRoot: the operations users may run concurrently. The element and segment types are the
// parts these operations are made of: their callers hold the locks.
func concurrentRoot(fn *ssa.Function) bool {
	if _, ok := setupOnly[Short(fn)]; ok {
		return false
	}
	if fn.Object() == nil || strings.HasPrefix(fn.Name(), "init") {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		s := types.TypeString(r.Type(), func(*types.Package) string { return "" })
		s = strings.TrimLeft(s, "*.")
		switch s {
		case "Segment", "Segments", "SegmentsID", "Element", "Elements", "ElementID", "RankedElement", "RankedElements", "TestStorage", "IndexElements", "IndexElement":
			return false
		}
	}
	return true
}

// valueType: plain data, copied or passed between goroutines with the slice that holds it.
func valueType(f string) bool {
	for _, p := range []string{".Element.", ".RankedElement.", ".IndexElement."} {
		if strings.HasPrefix(f, p) {
			return true
		}
	}
	return false
}

func protected(a, b *gacc) bool {
	if a.single != "" && a.single == b.single {
		return true
	}
	for _, x := range a.locks {
		for _, y := range b.locks {
			if x.cls == y.cls && (x.w || y.w) {
				return true
			}
		}
	}
	return false
}

// reach: the values a result gives access to without calling anything.
func reach(st *ai.State, ret *ai.V) []*ai.V {
	var out []*ai.V
	seen := map[*ai.V]bool{}
	var rec func(v *ai.V)
	rec = func(v *ai.V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		out = append(out, v)
		if v.K == ai.KTuple || v.K == ai.KIface {
			for _, x := range v.Args {
				rec(x)
			}
		}
		for m, x := range st.Mem {
			if m == v || (m.K == ai.KField || m.K == ai.KIndex) && m.Args[0] == v {
				rec(m)
				rec(x)
			}
		}
	}
	rec(ret)
	return out
}

func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Parameter:
		return x.Name()
	}
	return v.Name()
}

func init() {
	register("C08", "path-sensitive lockset analysis over go/ssa", func(c *Ctx) *Result {
		r := NewResult()
		r.Explanation = simExplain + "Every access to a field of a shared object, or to what a map or slice in it holds, is recorded with the locks held. Two accesses to the same field, one of them a write, need a common lock that excludes one another. Goroutines started in a loop (or callbacks run by them) may only write what they share with their siblings under a lock of their own. Maps that are updated under a lock must not be handed to callers."
		r.Rules = []string{"unguarded: two operations can access a field at the same time", "worker-write: sibling goroutines write the same variable, map or elements", "read-locked-write: elements of a segment are changed under its read lock", "escapes: an exported function returns a map that is updated later"}
		w := newWorkers(c)
		acc, escs, found := c.fieldAccesses(r, w)
		for _, f := range found {
			r.Add(f)
		}
		fields := map[string]bool{}
		written := map[string]bool{}
		mapUpd := map[string]string{}
		for _, a := range acc {
			fields[a.field] = true
			if a.write {
				written[a.field] = true
				if a.mapUpd {
					mapUpd[strings.TrimSuffix(a.field, "{}")] = a.pos
				}
			}
		}
		pairs := 0
		for _, a := range acc {
			if !a.write {
				continue
			}
			for _, b := range acc {
				if !sameData(a.field, b.field) {
					continue
				}
				if strings.HasSuffix(a.field, ".*") && !written[b.field] {
					continue // whole values are only copied over themselves: the field never changes
				}
				pairs++
				if protected(a, b) {
					continue
				}
				op := "reads"
				if b.write {
					op = "writes"
				}
				f := b.field
				if strings.HasSuffix(f, ".*") {
					f = a.field
				}
				r.Add(Finding{Rule: "unguarded", Key: fmt.Sprintf("unguarded|%s|%s|%s", f, a.fn, b.fn), Pos: b.pos,
					Msg: fmt.Sprintf("%s is written at %s in %s (entry point %s, holding %v) while %s (entry point %s, holding %v) %s it at %s", f, a.pos, a.fn, a.root, a.locks, b.fn, b.root, b.locks, op, b.pos), Trace: b.trace})
			}
		}
		if os.Getenv("VSA_GUARDS") != "" {
			for _, x := range escs {
				fmt.Println("result", x.field, x.root)
			}
			fmt.Println(mapUpd)
		}
		for _, x := range escs {
			if p := mapUpd[x.field]; p != "" {
				r.Add(Finding{Rule: "escapes", Key: "escapes|" + x.field + "|" + x.root, Pos: x.pos, Trace: x.trace,
					Msg: fmt.Sprintf("%s returns the map in %s itself, which is updated later (at %s), so the caller reads it while it changes", x.root, x.field, p)})
			}
		}
		r.Counts["access_contexts"] = len(acc)
		r.Counts["shared_fields"] = len(fields)
		r.Counts["written_fields"] = len(written)
		r.Counts["conflicting_pairs_checked"] = pairs
		r.Counts["concurrent_bodies"] = len(w.body)
		r.Counts["results_examined"] = len(escs)
		r.Assumptions = append(r.Assumptions,
			"objects that a function has just created are private to it until they are stored in something shared, passed to a goroutine or returned",
			"setup functions (configuration, constructors, API start) run before concurrent operations",
			"fields that are only accessed with sync/atomic or that are channels, locks, contexts or wait groups synchronise themselves")
		r.Floors["access_contexts"] = 800
		r.Floors["written_fields"] = 35
		r.Floors["concurrent_bodies"] = 15
		r.Floors["worker_writes_examined"] = 1000
		n := 0
		for _, a := range acc {
			if a.write {
				if n++; n%12 == 1 {
					r.Sample(fmt.Sprintf("%s written in %s holding %v", a.field, a.fn, a.locks))
				}
			}
		}
		if os.Getenv("VSA_GUARDS") != "" {
			for _, a := range acc {
				fmt.Println(a.field, a.write, a.pos, a.fn, a.root, a.obj, a.locks)
			}
		}
		return r
	})
}
