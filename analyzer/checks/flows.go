package checks

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/load"
)

// C15: what a request, option or configuration value says reaches what it is about.

//go:embed flows.json
var flowsJSON []byte

type flowSink struct {
	name string
	not  bool // arrives negated
}

type flowRes struct {
	sites map[flowSite]bool
	sinks map[flowSink]bool
	ret   map[int]map[bool]bool // result number -> polarity
}

// flowSite is an argument of a call a value arrives at.
type flowSite struct {
	call ssa.CallInstruction
	arg  int
}

type flows struct {
	sites map[string]map[flowSite]bool // by source
	c     *Ctx
	memo  map[flowKey]*flowRes
	call  map[*ssa.Function][]ssa.CallInstruction // static callers
	uses  int
	at    map[string][]string // where a value is read
}

type flowKey struct {
	f    *ssa.Function
	i    int // parameter
	only int
}

func modPkg(p string) bool {
	return p == load.ModPath || strings.HasPrefix(p, load.ModPath+"/") || strings.HasPrefix(p, "vp")
}

// inside: the value is followed into the functions of these packages.
func flowInside(f *ssa.Function) bool {
	p := PkgPath(f)
	return len(f.Blocks) > 0 && (p == load.ModPath+"/api" || p == load.ModPath+"/api/morph" || p == load.ModPath+"/cmd/rankdb" || f.Parent() != nil && modPkg(p))
}

func typeShort(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), load.ModPath), "/") + "." + n.Obj().Name()
}

// configPath names a field of the configuration: config.Badger.NoSync.
func configPath(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	n := s.Field(fa.Field).Name()
	if g, ok := fa.X.(*ssa.Global); ok && g.Name() == "config" && strings.HasSuffix(PkgPath2(g.Pkg), "/api") {
		return "config." + n
	}
	if p := configPath(fa.X); p != "" {
		return p + "." + n
	}
	return ""
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// PkgPath2 is the path of the package.
func PkgPath2(p *ssa.Package) string {
	if p == nil || p.Pkg == nil {
		return ""
	}
	return p.Pkg.Path()
}

func (x *flows) fieldName(xt types.Type, i int) string {
	s, ok := deref(xt).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	if o := typeShort(xt); o != "" {
		return o + "." + s.Field(i).Name()
	}
	if _, ok := deref(xt).(*types.Struct); ok {
		return "struct." + s.Field(i).Name()
	}
	return ""
}

// source: the field is one whose value somebody outside chose or will read.
func (x *flows) source(owner, field string, embedded bool) bool {
	if embedded {
		return false
	}
	switch {
	case strings.HasPrefix(owner, "api/app.") && strings.HasSuffix(owner, "Context"):
		return field != "Context"
	case strings.HasPrefix(owner, "api/app."):
		return true
	}
	switch owner {
	case ".List", ".listOptions", "blobstore.lazySaveOptions", "blobstore.retryStoreOptions", "api.NewRelicOptions",
		".RankedElement", ".Element", ".SegmentStats", ".ListStats", ".PageInfo", ".ListInfo", ".OperationStats", "backup.Request", "backup.RestoreInfo", "backup.RestoreResult", "backup.Status":
		return true
	}
	return false
}

// walk follows a value; neg says whether it is the opposite of the source.
func (x *flows) walk(res *flowRes, v ssa.Value, neg bool, seen map[flowVal]bool) {
	x.walkField(res, v, neg, -1, seen)
}

// walkField follows a structure for what one of its fields holds.
func (x *flows) walkField(res *flowRes, v ssa.Value, neg bool, only int, seen map[flowVal]bool) {
	k := flowVal{v, neg, only}
	if seen[k] {
		return
	}
	seen[k] = true
	refs := v.Referrers()
	if refs == nil {
		return
	}
	sink := func(n string) { res.sinks[flowSink{n, neg}] = true }
	for _, ref := range *refs {
		switch r := ref.(type) {
		case *ssa.UnOp:
			if r.Op == token.NOT {
				x.walk(res, r, !neg, seen)
			} else {
				x.walkField(res, r, neg, only, seen)
			}
		case *ssa.BinOp:
			x.walk(res, r, neg, seen)
		case *ssa.Store:
			if r.Val != v {
				continue
			}
			if a, ok := r.Addr.(*ssa.Alloc); ok && only >= 0 {
				x.walkField(res, a, neg, only, seen)
				continue
			}
			x.store(res, r.Addr, neg, seen)
		case *ssa.MapUpdate:
			if r.Map != v {
				x.walk(res, r.Map, neg, seen)
				if l, ok := r.Map.(*ssa.UnOp); ok {
					if fa, ok := l.X.(*ssa.FieldAddr); ok {
						// into a map that is there already, and that others may share
						sink("put " + x.fieldName(fa.X.Type(), fa.Field))
					} else {
						x.store(res, l.X, neg, seen)
					}
				}
			}
		case *ssa.If:
			res.sinks[flowSink{"decides", false}] = true
			if _, cmp := v.(*ssa.BinOp); !cmp {
				for i := range r.Block().Succs {
					for e := range x.region(r.Block(), i) {
						res.sinks[flowSink{"if true: " + e, neg != (i == 1)}] = true
					}
				}
			}
		case *ssa.Send:
			if r.X == v {
				sink("sent")
			}
		case *ssa.Return:
			for i, o := range r.Results {
				if o == v {
					if res.ret[i] == nil {
						res.ret[i] = map[bool]bool{}
					}
					res.ret[i][neg] = true
				}
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v {
					x.walkField(res, fn.FreeVars[i], neg, only, seen)
				}
			}
		case ssa.CallInstruction:
			x.atCall(res, r, v, neg, only, seen)
		case *ssa.FieldAddr:
			if only < 0 || only == r.Field {
				x.walk(res, r, neg, seen)
			}
		case *ssa.Field:
			if only < 0 || only == r.Field {
				x.walk(res, r, neg, seen)
			}
		case *ssa.Phi, *ssa.Extract, *ssa.ChangeType:
			x.walkField(res, r.(ssa.Value), neg, only, seen)
		case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.Next,
			*ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Slice, *ssa.TypeAssert, *ssa.SliceToArrayPointer:
			x.walk(res, r.(ssa.Value), neg, seen)
		}
	}
}

// region is what happens only on one side of a branch.
func (x *flows) region(b *ssa.BasicBlock, side int) map[string]bool {
	out := map[string]bool{}
	s := b.Succs[side]
	if len(s.Preds) != 1 {
		return out
	}
	for _, d := range b.Parent().Blocks {
		if s.Dominates(d) {
			x.effects(out, d, 3)
		}
	}
	return out
}

// effects lists the calls made and the fields set in a block, here or in internal functions it calls.
func (x *flows) effects(out map[string]bool, b *ssa.BasicBlock, depth int) {
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Store:
			if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
				if n := x.fieldName(fa.X.Type(), fa.Field); n != "" {
					out["set "+n] = true
				}
			}
		case *ssa.MakeClosure:
			if depth > 0 {
				for _, d := range i.Fn.(*ssa.Function).Blocks {
					x.effects(out, d, depth-1)
				}
			}
		case ssa.CallInstruction:
			cc := i.Common()
			g := cc.StaticCallee()
			if cc.IsInvoke() {
				n := cc.Method.FullName()
				out["call "+n[strings.LastIndexByte(n, '/')+1:]] = true
				continue
			}
			if g == nil {
				continue
			}
			out["call "+Short(g)] = true
			if depth > 0 && modPkg(PkgPath(g)) && len(g.Blocks) > 0 && (flowInside(g) || !ast.IsExported(g.Name())) {
				for _, d := range g.Blocks {
					x.effects(out, d, depth-1)
				}
			}
		}
	}
}

type flowVal struct {
	v    ssa.Value
	neg  bool
	only int
}

func (x *flows) store(res *flowRes, addr ssa.Value, neg bool, seen map[flowVal]bool) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if n := x.fieldName(a.X.Type(), a.Field); n != "" {
			res.sinks[flowSink{"set " + n, neg}] = true
		}
		if _, ok := a.X.(*ssa.Alloc); ok {
			x.walkField(res, a.X, neg, a.Field, seen)
		} else if in, ok := a.X.(*ssa.FieldAddr); ok {
			x.store(res, in, neg, seen)
		}
	case *ssa.IndexAddr:
		x.walk(res, a.X, neg, seen)
	case *ssa.Alloc:
		x.walk(res, a, neg, seen)
	case *ssa.FreeVar:
		x.walk(res, a, neg, seen)
		// and in the function that made the closure
		f := a.Parent()
		for i, fv := range f.FreeVars {
			if fv != a || f.Parent() == nil {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
						x.walk(res, mc.Bindings[i], neg, seen)
					}
				}
			}
		}
	case *ssa.Global:
		res.sinks[flowSink{"set " + strings.TrimPrefix(PkgPath2(a.Pkg), load.ModPath+"/") + "." + a.Name(), neg}] = true
	case *ssa.UnOp:
		x.walk(res, a, neg, seen)
	}
}

func (x *flows) atCall(res *flowRes, r ssa.CallInstruction, v ssa.Value, neg bool, only int, seen map[flowVal]bool) {
	cc := r.Common()
	name := ""
	g := cc.StaticCallee()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if val, ok := r.(ssa.Value); ok {
				x.walk(res, val, neg, seen)
			}
		case "copy":
			if len(cc.Args) == 2 && cc.Args[1] == v {
				x.walk(res, cc.Args[0], neg, seen)
			}
		case "len", "cap", "min", "max":
			if val, ok := r.(ssa.Value); ok {
				x.walk(res, val, neg, seen)
			}
		case "delete":
			res.sinks[flowSink{"call delete", neg}] = true
		}
		return
	}
	args := cc.Args
	switch {
	case cc.IsInvoke():
		name = cc.Method.FullName()
		if i := strings.LastIndexByte(name, '/'); i >= 0 {
			name = name[i+1:]
		}
		args = append([]ssa.Value{cc.Value}, args...)
	case g != nil:
		name = Short(g)
	}
	pp := ""
	if g != nil {
		pp = PkgPath(g)
	} else if cc.IsInvoke() && cc.Method.Pkg() != nil {
		pp = cc.Method.Pkg().Path()
	}
	if strings.HasPrefix(pp, load.ModPath+"/log") || strings.HasSuffix(pp, "/goa") || strings.HasPrefix(pp, "fmt") || pp == "errors" {
		return
	}
	if g != nil && pp == "encoding/json" && g.Name() == "Unmarshal" && len(args) == 2 && args[0] == v {
		to := args[1]
		if mi, ok := to.(*ssa.MakeInterface); ok {
			to = mi.X
		}
		x.walk(res, to, neg, seen)
	}
	val, isVal := r.(ssa.Value)
	if g != nil && pp == load.ModPath+"/api/app" {
		return // a response
	}
	for i, a := range args {
		if a != v {
			continue
		}
		if g != nil && flowInside(g) {
			sub := x.param(g, i, only)
			for s := range sub.sites {
				res.sites[s] = true
			}
			for s := range sub.sinks {
				n := neg != s.not
				if s.name == "decides" {
					n = false
				}
				res.sinks[flowSink{s.name, n}] = true
			}
			if isVal {
				x.results(res, g, val, sub, neg, seen)
			}
			continue
		}
		if g != nil && modPkg(pp) && len(g.Blocks) > 0 && !ast.IsExported(g.Name()) {
			// an internal function: it counts itself, and so does what it does with the value
			sub := x.param(g, i, only)
			for s := range sub.sites {
				res.sites[s] = true
			}
			for s := range sub.sinks {
				n := neg != s.not
				if s.name == "decides" {
					n = false
				}
				res.sinks[flowSink{s.name, n}] = true
			}
			if isVal {
				x.results(res, g, val, sub, neg, seen)
			}
		}
		if only >= 0 {
			continue
		}
		if name != "" {
			res.sinks[flowSink{fmt.Sprintf("call %s#%d", name, i), neg}] = true
			res.sites[flowSite{r, i}] = true
		}
		// what the call makes of it
		if isVal && !modPkg(pp) || isVal && strings.HasPrefix(pp, load.ModPath) && constructs(g) {
			x.walk(res, val, neg, seen)
		}
	}
	if !cc.IsInvoke() && cc.Value == v && only < 0 {
		res.sinks[flowSink{"called", neg}] = true
	}
}

// constructs: the result of the function is its argument in another form.
func constructs(g *ssa.Function) bool {
	if g == nil {
		return false
	}
	return PkgPath(g) == load.ModPath+"/blobstore" || g.Signature.Recv() != nil && g.Signature.Results().Len() == 1 && strings.HasPrefix(typeShort(g.Signature.Recv().Type()), ".") && len(g.Blocks) < 12
}

func (x *flows) results(res *flowRes, g *ssa.Function, val ssa.Value, sub *flowRes, neg bool, seen map[flowVal]bool) {
	for i, pol := range sub.ret {
		for n := range pol {
			if g.Signature.Results().Len() == 1 {
				x.walk(res, val, neg != n, seen)
				continue
			}
			for _, ref := range *val.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
					x.walk(res, ex, neg != n, seen)
				}
			}
		}
	}
}

func (x *flows) param(g *ssa.Function, i, only int) *flowRes {
	k := flowKey{g, i, only}
	if r, ok := x.memo[k]; ok {
		return r
	}
	r := newFlowRes()
	x.memo[k] = r
	if i < len(g.Params) {
		x.walkField(r, g.Params[i], false, only, map[flowVal]bool{})
	}
	return r
}

func newFlowRes() *flowRes {
	return &flowRes{sites: map[flowSite]bool{}, sinks: map[flowSink]bool{}, ret: map[int]map[bool]bool{}}
}

// fields finds the fields read of a structure, and of the structures in it, wherever it is passed.
func (x *flows) fields(v ssa.Value, path string, depth int, seen map[ssa.Value]bool, out func(string, ssa.Instruction)) {
	if depth > 12 || seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.FieldAddr:
			s, ok := deref(r.X.Type()).Underlying().(*types.Struct)
			if !ok || !strings.HasPrefix(typeShort(r.X.Type()), "api/app.") && !strings.HasPrefix(path, "config.") {
				continue
			}
			n := path + "." + s.Field(r.Field).Name()
			out(n, r)
			x.fields(r, n, depth+1, seen, out)
		case *ssa.Field:
			s, ok := r.X.Type().Underlying().(*types.Struct)
			if !ok || !strings.HasPrefix(typeShort(r.X.Type()), "api/app.") && !strings.HasPrefix(path, "config.") {
				continue
			}
			n := path + "." + s.Field(r.Field).Name()
			out(n, r)
			x.fields(r, n, depth+1, seen, out)
		case *ssa.UnOp:
			x.fields(r, path, depth+1, seen, out)
		case *ssa.Phi:
			x.fields(r, path, depth+1, seen, out)
		case *ssa.Store:
			if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
				x.fields(a, path, depth+1, seen, out)
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v {
					x.fields(r.Fn.(*ssa.Function).FreeVars[i], path, depth+1, seen, out)
				}
			}
		case ssa.CallInstruction:
			g := r.Common().StaticCallee()
			if g == nil || !flowInside(g) {
				continue
			}
			for i, a := range r.Common().Args {
				if a == v && i < len(g.Params) {
					x.fields(g.Params[i], path, depth+1, seen, out)
				}
			}
		}
	}
}

// up follows what a helper returns into its callers.
func (x *flows) up(res *flowRes, f *ssa.Function, depth int) {
	if depth > 3 || len(res.ret) == 0 {
		return
	}
	sub := &flowRes{sites: res.sites, sinks: res.sinks, ret: res.ret}
	for _, call := range x.call[f] {
		val, ok := call.(ssa.Value)
		if !ok || val.Referrers() == nil {
			continue
		}
		r := newFlowRes()
		x.results(r, f, val, sub, false, map[flowVal]bool{})
		for s := range r.sinks {
			res.sinks[s] = true
		}
		for s := range r.sites {
			res.sites[s] = true
		}
		x.up(r, call.Parent(), depth+1)
		for s := range r.sinks {
			res.sinks[s] = true
		}
		for s := range r.sites {
			res.sites[s] = true
		}
	}
}

func (x *flows) collect() map[string]map[string]bool {
	table := map[string]map[string]bool{}
	add := func(src string, res *flowRes) {
		if table[src] == nil {
			table[src] = map[string]bool{}
			x.sites[src] = map[flowSite]bool{}
		}
		for s := range res.sites {
			x.sites[src][s] = true
		}
		for s := range res.sinks {
			n := s.name
			if s.not {
				n += " negated"
			}
			table[src][n] = true
		}
	}
	for _, f := range x.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						x.call[g] = append(x.call[g], call)
					}
				}
			}
		}
	}
	follow := func(src string, f *ssa.Function, vals ...ssa.Value) {
		x.uses++
		if pos := vals[0].Pos(); pos.IsValid() {
			x.at[src] = append(x.at[src], Short(f)+" "+x.c.Pos(pos))
		}
		res := newFlowRes()
		seen := map[flowVal]bool{}
		for _, v := range vals {
			x.walk(res, v, false, seen)
		}
		if flowInside(f) {
			x.up(res, f, 0)
		}
		add(src, res)
	}
	for _, f := range x.c.P.Funcs {
		pp := PkgPath(f)
		if !modPkg(pp) || strings.HasPrefix(pp, load.ModPath+"/api/app") || strings.HasPrefix(pp, load.ModPath+"/api/client") ||
			strings.HasPrefix(pp, load.ModPath+"/api/tool") || strings.Contains(pp, "/bstest") || strings.Contains(pp, "/api/design") {
			continue
		}
		if pos := f.Pos(); pos.IsValid() && strings.HasSuffix(x.c.P.Fset.Position(pos).Filename, "_gen.go") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var v ssa.Value
				name := ""
				switch i := in.(type) {
				case *ssa.FieldAddr:
					if n := configPath(i); n != "" {
						name = n
					} else if s, ok := deref(i.X.Type()).Underlying().(*types.Struct); ok {
						if o := typeShort(i.X.Type()); o != "" && x.source(o, s.Field(i.Field).Name(), s.Field(i.Field).Embedded()) {
							name = o + "." + s.Field(i.Field).Name()
						}
					}
					v = i
				case *ssa.Field:
					s := i.X.Type().Underlying().(*types.Struct)
					if o := typeShort(i.X.Type()); o != "" && x.source(o, s.Field(i.Field).Name(), s.Field(i.Field).Embedded()) {
						name = o + "." + s.Field(i.Field).Name()
					}
					v = i
				}
				if name != "" {
					follow(name, f, v)
				}
				if strings.HasSuffix(name, "Context.Payload") || strings.HasPrefix(name, "config.") {
					x.fields(v, name, 0, map[ssa.Value]bool{}, func(n string, at ssa.Instruction) {
						follow(n, at.Parent(), at.(ssa.Value))
					})
				}
			}
		}
		// conversions to answers: what they are given beside the value they convert
		if r := f.Signature.Recv(); r != nil && f.Parent() == nil && strings.HasPrefix(typeShort(r.Type()), "api/morph.") {
			for i, p := range f.Params[1:] {
				follow(fmt.Sprintf("%s.%s parameter %d", typeShort(r.Type()), f.Name(), i+1), f, p)
			}
		}
		// options: what a method of an option type is given
		if r := f.Signature.Recv(); r != nil && f.Parent() == nil {
			switch o := typeShort(r.Type()); o {
			case ".ListOption", "blobstore.RetryOpt", "blobstore.LazySaveOption":
				for _, p := range f.Params[1:] {
					follow(o+"."+f.Name()+"("+p.Name()+")", f, p)
				}
			}
		}
	}
	return table
}

func init() {
	register("C15", "interprocedural value-flow over go/ssa against a recorded table of what each value is for", func(c *Ctx) *Result {
		r := NewResult()
		r.Rules = []string{"value-does-not-arrive", "answer-field-left-out", "answer-field-from-another", "call-without-parameter"}
		x := &flows{c: c, memo: map[flowKey]*flowRes{}, call: map[*ssa.Function][]ssa.CallInstruction{}, at: map[string][]string{}, sites: map[string]map[flowSite]bool{}}
		table := x.collect()
		want, now := &flowTable{}, &flowTable{Flows: map[string][]string{}, Answers: map[string][]string{}, From: map[string][]string{}}
		if err := json.Unmarshal(flowsJSON, want); err != nil {
			r.Note("flows.json: " + err.Error())
		}
		x.answers(r, want, now)
		x.everySite(r, want)
		if f := os.Getenv("VSA_FLOWS_OUT"); f != "" {
			for k, m := range table {
				var l []string
				for s := range m {
					l = append(l, s)
				}
				sort.Strings(l)
				now.Flows[k] = l
			}
			b, _ := json.MarshalIndent(now, "", " ")
			os.WriteFile(f, append(b, '\n'), 0o644)
		}
		var keys []string
		for k := range want.Flows {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			r.Inc("values", 1)
			for _, s := range want.Flows[k] {
				r.Inc("flows_checked", 1)
				if table[k][s] {
					continue
				}
				at := x.at[k]
				sort.Strings(at)
				pos, fn := "-", ""
				if len(at) > 0 {
					fn, pos, _ = strings.Cut(at[0], " ")
				}
				msg := fmt.Sprintf("%s does not arrive where it takes effect (%s)", k, s)
				if len(at) == 0 {
					msg = fmt.Sprintf("nothing reads %s, so it cannot take effect (%s)", k, s)
				}
				r.Add(Finding{Rule: "value-does-not-arrive", Key: "value-does-not-arrive|" + k + "|" + s, Pos: pos, Msg: "in " + fn + ": " + msg, Trace: at})
			}
		}
		r.Counts["value_uses_followed"] = x.uses
		r.Floors["flows_checked"] = 100
		r.Explanation = "Every field of a request, option or the configuration, and every field of an answer, is followed from where it is read through assignments, conversions and helpers to where it takes effect."
		return r
	})
}
