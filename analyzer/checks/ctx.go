// Package checks holds the properties decided by this analyzer.
package checks

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

// Finding is one violation.
type Finding struct {
	Rule  string   // rule name
	Key   string   // stable identity: rule + construct
	Pos   string   // file:line
	Msg   string   // what fails
	Trace []string // how to get there
}

// Result of a check.
type Result struct {
	Findings    []Finding
	Rules       []string
	Explanation string
	Counts      map[string]int // obligations and units, measured
	Floors      map[string]int // minimum confirmed by hand; below is a violation of the check's own vacuity guard
	Samples     []string
	Assumptions []string
	Notes       []string // undecided or bounded parts
	mu          sync.Mutex
	seen        map[string]bool
}

// NewResult makes an empty result.
func NewResult() *Result {
	return &Result{Counts: map[string]int{}, Floors: map[string]int{}, seen: map[string]bool{}}
}

// enough says when to go no further: a violation has been found and the rest would take long, or time is running out.
func (r *Result) enough(c *Ctx) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, f := range r.Findings {
		if !c.Known[f.Key] {
			n++
		}
	}
	switch d := time.Since(c.Begin); {
	case n > 0 && d > 90*time.Second:
		return "a violation has been found, the rest was left"
	case d > c.Limit:
		return "time limit reached"
	}
	return ""
}

// Add records a finding once per key.
func (r *Result) Add(f Finding) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.seen[f.Key] {
		return
	}
	r.seen[f.Key] = true
	r.Findings = append(r.Findings, f)
}

// Inc counts.
func (r *Result) Inc(k string, n int) {
	r.mu.Lock()
	r.Counts[k] += n
	r.mu.Unlock()
}

// Sample keeps a few written-out obligations.
func (r *Result) Sample(s string) {
	r.mu.Lock()
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}

// Note records an undecided or bounded part.
func (r *Result) Note(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.Notes {
		if x == s {
			return
		}
	}
	r.Notes = append(r.Notes, s)
}

// Ctx is shared by all checks.
type Ctx struct {
	settleOnce sync.Once
	settled    map[*ssa.Global]*ssa.Const

	P     *load.Program
	Tier  string
	Known map[string]bool // findings listed already
	Begin time.Time
	Limit time.Duration // no exploring after this
	Mods  *ai.ModSets
	Vol   map[ai.FieldRef]bool
	FFns  ai.FieldFns

	relOnce sync.Once
	rel     *ai.Relevance
	callers map[*ssa.Function][]ssa.CallInstruction
	addrTkn map[*ssa.Function]bool
}

// NewCtx prepares shared data.
// Budget is the step budget of one entry point: thorough runs get eight times as many.
func (c *Ctx) Budget(n int) int {
	if c.Tier == "thorough" {
		return 8 * n
	}
	return n
}

func NewCtx(p *load.Program, tier string) *Ctx {
	c := &Ctx{Begin: time.Now(), Limit: 720 * time.Second, P: p, Tier: tier, Mods: ai.NewModSets(p.Funcs), Vol: ai.NewVolatile(p.Funcs), FFns: ai.NewFieldFns(p.Funcs), callers: map[*ssa.Function][]ssa.CallInstruction{}, addrTkn: map[*ssa.Function]bool{}}
	for _, f := range p.Funcs {
		EachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil {
					c.callers[g] = append(c.callers[g], ci)
				}
			}
			for i, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					if ci, isCall := in.(ssa.CallInstruction); isCall && i == 0 && ci.Common().Value == g {
						continue
					}
					c.addrTkn[g] = true
				}
			}
		})
	}
	return c
}

// EachInstr visits the instructions of f.
func EachInstr(f *ssa.Function, fn func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fn(in)
		}
	}
}

// Generated reports whether fn comes from a generated file.
func (c *Ctx) Generated(fn *ssa.Function) bool {
	f := c.P.Fset.Position(fn.Pos()).Filename
	return strings.HasSuffix(f, "_gen.go") || strings.Contains(f, "/api/app/") || strings.Contains(f, "/api/client/") || strings.Contains(f, "/api/tool/")
}

// PkgPath of a function.
func PkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// Short is a readable function name.
func Short(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, load.ModPath+"/", "")
	s = strings.ReplaceAll(s, load.ModPath, "rankdb")
	return s
}

// Exported: callable from outside its package (exported name, or main/init).
func Exported(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	o := fn.Object()
	return o != nil && o.Exported() || fn.Name() == "main" || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

// TopFn is the outermost function.
func TopFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// Parallel runs jobs on all cores.
func Parallel(n int, job func(i int)) {
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				job(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// TraceOf renders the decisions leading to a state.
func (c *Ctx) TraceOf(st *ai.State, max int) []string {
	var l []string
	for t := st.Tr; t != nil; t = t.Prev {
		l = append(l, fmt.Sprintf("%s: %s", c.P.Pos(t.Pos), t.What))
	}
	if len(l) > max {
		l = l[:max]
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// Pos is a short for Program.Pos.
func (c *Ctx) Pos(p token.Pos) string { return c.P.Pos(p) }

// Debugf prints when VSA_VERBOSE is set.
func Debugf(f string, a ...interface{}) {
	if os.Getenv("VSA_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

// SortFindings orders findings.
func SortFindings(fs []Finding) {
	sort.Slice(fs, func(i, j int) bool { return fs[i].Key < fs[j].Key })
}

// calledInPkg: functions some other function of the same package calls, so every use of them inside
// the module is analysed in the context of that caller.
func (c *Ctx) calledInPkg() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f, cs := range c.callers {
		for _, ci := range cs {
			if g := TopFn(ci.Parent()); g != f && PkgPath(g) == PkgPath(f) {
				out[f] = true
			}
		}
	}
	return out
}

// settledGlobals: package variables of basic type that only ever have their initial, constant value.
func (c *Ctx) settledGlobals() map[*ssa.Global]*ssa.Const {
	c.settleOnce.Do(func() {
		c.settled = map[*ssa.Global]*ssa.Const{}
		bad := map[*ssa.Global]bool{}
		for _, sp := range c.P.SPkg {
			fns := []*ssa.Function{}
			if in := sp.Func("init"); in != nil {
				fns = append(fns, in)
			}
			for _, f := range c.P.Funcs {
				if (f.Pkg == sp || f.Pkg == nil) && f.Name() != "init" {
					fns = append(fns, f)
				}
			}
			for _, f := range fns {
				EachInstr(f, func(in ssa.Instruction) {
					switch in := in.(type) {
					case *ssa.UnOp:
						if in.Op == token.MUL {
							return
						}
					case *ssa.Store:
						if g, ok := in.Addr.(*ssa.Global); ok {
							if k, ok := in.Val.(*ssa.Const); ok && f.Name() == "init" && c.settled[g] == nil {
								c.settled[g] = k
							} else {
								bad[g] = true
							}
							return
						}
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							bad[g] = true
						}
					}
				})
			}
			for _, m := range sp.Members {
				if g, ok := m.(*ssa.Global); ok {
					t := g.Type().Underlying().(*types.Pointer).Elem()
					if _, basic := t.Underlying().(*types.Basic); !basic || ast.IsExported(g.Name()) {
						bad[g] = true
					} else if c.settled[g] == nil {
						c.settled[g] = ssa.NewConst(zeroOf(t), t)
					}
				}
			}
		}
		for g := range bad {
			delete(c.settled, g)
		}
	})
	return c.settled
}

func zeroOf(t types.Type) constant.Value {
	b := t.Underlying().(*types.Basic)
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(false)
	case b.Info()&types.IsNumeric != 0:
		return constant.MakeInt64(0)
	}
	return nil
}

// Settled gives the values of the variables that never change.
func (c *Ctx) Settled(e *ai.Engine) map[*ai.V]*ai.V {
	m := map[*ai.V]*ai.V{}
	for g, k := range c.settledGlobals() {
		if k.Value != nil {
			m[e.Global(g)] = e.Const(k.Value)
		}
	}
	return m
}
