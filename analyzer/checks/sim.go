package checks

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// SimOpts configures a path-sensitive run over entry points.
type SimOpts struct {
	Rel      *ai.Relevance
	Pkgs     func(path string) bool // packages to analyse; nil = all hand-written ones
	Roots    func(fn *ssa.Function) bool
	Setup    func(e *ai.Engine, root *ssa.Function)
	Out      func(e *ai.Engine, root *ssa.Function, outs []ai.Outcome)
	Init     func(e *ai.Engine, root *ssa.Function, st *ai.State)
	MaxSteps int
	// CrossPkg also inlines functions of other analysed packages.
	CrossPkg bool
}

// Simulate runs the engine over all entry points, then over relevant functions no entry point reached.
func (c *Ctx) Simulate(r *Result, o SimOpts) {
	inPkgs := func(fn *ssa.Function) bool {
		p := PkgPath(fn)
		if p == "" || c.P.SPkg[p] == nil || c.Generated(TopFn(fn)) {
			return false
		}
		return o.Pkgs == nil || o.Pkgs(p)
	}
	// A root is an exported function, a function whose value is used somewhere, or one nobody calls.
	var roots []*ssa.Function
	isRoot := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || !inPkgs(fn) || !o.Rel.Has(fn) {
			continue
		}
		if o.Roots != nil && !o.Roots(fn) {
			continue
		}
		if x := os.Getenv("VSA_ROOT"); x != "" && Short(fn) != x {
			continue
		}
		if Exported(fn) || c.addrTkn[fn] || len(c.callers[fn]) == 0 {
			roots = append(roots, fn)
			Debugf("root %s exp=%v addr=%v callers=%d\n", Short(fn), Exported(fn), c.addrTkn[fn], len(c.callers[fn]))
			isRoot[fn] = true
		}
	}
	visited := map[*ssa.Function]bool{}
	blocks := map[*ssa.BasicBlock]bool{}
	run := func(list []*ssa.Function) {
		res := make([]*ai.Engine, len(list))
		// big ones first
		sort.SliceStable(list, func(i, j int) bool { return len(list[i].Blocks) > len(list[j].Blocks) })
		Parallel(len(list), func(i int) {
			root := list[i]
			e := ai.New(c.P)
			e.Mods = c.Mods
			e.Volatile = c.Vol
			e.FieldFns = c.FFns
			e.MaxSteps = c.Budget(e.MaxSteps)
			if o.MaxSteps > 0 {
				e.MaxSteps = o.MaxSteps
			}
			e.Stop = func() string { return r.enough(c) }
			pkg := PkgPath(root)
			e.Inline = func(f *ssa.Function) bool {
				if !inPkgs(f) || !o.Rel.Has(f) {
					return false
				}
				return o.CrossPkg || PkgPath(f) == pkg
			}
			defer func() {
				if p := recover(); p != nil {
					r.Note(fmt.Sprintf("%s: analysis aborted: %v", Short(root), p))
					Debugf("%s\n", debug.Stack())
					r.Inc("aborted", 1)
				}
			}()
			if os.Getenv("VSA_PROF") != "" {
				e.Prof = map[*ssa.Function]int{}
				defer func() {
					for f, n := range e.Prof {
						if n > 2000 {
							Debugf("PROF %8d %s\n", n, Short(f))
						}
					}
				}()
			}
			o.Setup(e, root)
			t := time.Now()
			st0 := ai.NewState()
			if o.Init != nil {
				o.Init(e, root, st0)
			}
			outs := e.RunFrom(root, nil, st0)
			if e.Truncated != "" {
				r.Note(fmt.Sprintf("%s: bounded: %s", Short(root), e.Truncated))
			}
			if o.Out != nil {
				o.Out(e, root, outs)
			}
			Debugf("%-70s outs %d states %d steps %d %v %s\n", Short(root), len(outs), e.NStates, e.Steps, time.Since(t).Round(time.Millisecond), e.Truncated)
			res[i] = e
			r.Inc("abstract_states", e.NStates)
			r.Inc("calls_interpreted", e.Calls)
		})
		for _, e := range res {
			if e == nil {
				continue
			}
			for f := range e.Visited {
				visited[f] = true
			}
			for b := range e.Blocks {
				blocks[b] = true
			}
		}
		r.Inc("entry_points", len(list))
	}
	if os.Getenv("VSA_SLOTS") != "" {
		var mu sync.Mutex
		ai.ProfSlots = func(fn *ssa.Function, depth int, it func(func(b *ssa.BasicBlock, n int)), all func() []*ai.State) {
			mu.Lock()
			defer mu.Unlock()
			if Short(fn) != os.Getenv("VSA_SLOTS") {
				return
			}
			Debugf("SLOTS %s depth %d\n", Short(fn), depth)
			for i, x := range all() {
				if x.Tr != nil && os.Getenv("VSA_BLOCK") != "" {
					Debugf("  STATE %d %s\n", i, x.KeyDump())
				}
			}
			it(func(b *ssa.BasicBlock, n int) {
				Debugf("  block %d %s %s: %d\n", b.Index, b.Comment, c.P.Pos(blockPos(b)), n)
			})
		}
	}
	run(roots)
	// whatever is left (only reachable through functions outside the analysed packages)
	if o.Roots == nil && os.Getenv("VSA_ROOT") == "" {
		var rest []*ssa.Function
		for _, fn := range c.P.Funcs {
			if fn.Parent() == nil && inPkgs(fn) && o.Rel.Has(fn) && !visited[fn] && !isRoot[fn] {
				rest = append(rest, fn)
			}
		}
		run(rest)
	}
	r.Inc("functions_analysed", len(visited))
	total := 0
	for fn := range visited {
		total += len(fn.Blocks)
	}
	r.Inc("blocks_analysed", len(blocks))
	r.Inc("blocks_never_entered", total-len(blocks))
	if os.Getenv("VSA_VERBOSE") != "" {
		for _, fn := range c.P.Funcs {
			if !visited[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				if !blocks[b] {
					Debugf("NEVER %s block %d %s: %s\n", Short(fn), b.Index, b.Comment, c.P.Pos(blockPos(b)))
				}
			}
		}
	}
}

// LockClass names a lock by owner type and field.
func LockClass(v *ai.V) string {
	for v.K == ai.KExpr && len(v.Args) > 0 {
		v = v.Args[0]
	}
	if v.K == ai.KField && v.T != nil {
		s := v.T.String()
		s = s[strings.LastIndexByte(s, '/')+1:]
		return s + "." + v.S
	}
	if v.K == ai.KField {
		return "?." + v.S
	}
	return strings.TrimRight(v.String(), "'")
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}
