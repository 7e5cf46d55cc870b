package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/load"
)

// C09: comparisons follow one ranking order.
//
// Comparators are evaluated over the order of the compared fields: each field of the two operands takes one of
// a few ordered positions (two or three apart from the constants it is compared with), which covers every way two
// values can be ordered. Anything the evaluation does not understand is explored both ways.

// rankOrder is the documented order: what decides first, and whether the higher value comes first.
var rankOrder = []struct {
	field string
	desc  bool
}{{"Score", true}, {"TieBreaker", true}, {"Updated", false}, {"ID", false}}

// indexOrder is the order of index entries by segment (kept in TieBreaker), then element (kept in Score).
var indexOrder = []struct {
	field string
	desc  bool
}{{"TieBreaker", true}, {"Score", true}}

type orders struct {
	c *Ctx
	r *Result
}

// oval is an abstract value of the evaluation.
type oval struct {
	k    byte // 'e' element or field of operand, 'a' address of one, 'l' address in a local, 'i' index of operand, 'c' constant, 'f' function, 'd' difference, 'b' boolean, 0 unknown
	side int  // operand
	path string
	base ssa.Value // local
	cst  int64
	b    bool
	fn   *ssa.Function
	free []oval
	typ  types.Type
}

type oenv struct {
	o     *orders
	pos   func(side int, path string) (int, bool) // position of a field
	steps int
	diff  bool // compared by difference
	used  map[string]bool
	cons  map[int64]bool
	index bool // operands are entries of an index
	elem  types.Type
	limit bool
}

const (
	mayFalse   = 1
	mayTrue    = 2
	mayUnknown = 4
)

func fieldName(t types.Type, i int) (string, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	return s.Field(i).Name(), s.Field(i).Embedded()
}

func namedOf(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// elementType: Element or a struct that embeds one.
func elementType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n := namedOf(t)
	if !strings.HasPrefix(n, load.ModPath+".") {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	has := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		has[f.Name()] = true
		if f.Embedded() && elementType(f.Type()) {
			return true
		}
	}
	return has["Score"] && has["TieBreaker"] && has["Updated"] && has["ID"]
}

func (e *oenv) field(v oval, t types.Type, i int) oval {
	n, emb := fieldName(t, i)
	if namedOf(t) == load.ModPath+".IndexElements" {
		e.index = true
	}
	if v.k != 'e' && v.k != 'a' && v.k != 'l' {
		return oval{}
	}
	if !emb || v.k == 'l' {
		v.path += "." + n
	}
	return v
}

func trimPath(p string) string { return strings.TrimPrefix(p, ".") }

type oframe struct {
	fn  *ssa.Function
	env map[ssa.Value]oval
	mem map[string]oval // local + path
}

func memKey(v ssa.Value, path string) string { return fmt.Sprintf("%p%s", v, path) }

func (e *oenv) val(fr *oframe, v ssa.Value) oval {
	if x, ok := fr.env[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return oval{}
		}
		if x.Value.Kind() == constant.Bool {
			return oval{k: 'b', b: constant.BoolVal(x.Value)}
		}
		if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok && x.Value.Kind() == constant.Int {
			return oval{k: 'c', cst: i}
		}
	case *ssa.Function:
		return oval{k: 'f', fn: x}
	}
	return oval{}
}

// narrowing conversions lose the order
func widens(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return types.Identical(from.Underlying(), to.Underlying())
	}
	if f.Kind() == t.Kind() {
		return true
	}
	fi, ti := f.Info(), t.Info()
	if fi&types.IsString != 0 && ti&types.IsString != 0 {
		return true
	}
	if fi&types.IsInteger == 0 || ti&types.IsInteger == 0 {
		return false
	}
	size := func(b *types.Basic) int {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32:
			return 4
		}
		return 8
	}
	fu, tu := fi&types.IsUnsigned != 0, ti&types.IsUnsigned != 0
	switch {
	case fu == tu:
		return size(t) >= size(f)
	case fu:
		return size(t) > size(f)
	}
	return false
}

func (e *oenv) cmp(op token.Token, a, b oval, ptr bool) (bool, bool) {
	num := func(v oval) (int, bool) {
		switch v.k {
		case 'c':
			return int(v.cst), true
		case 'e':
			e.used[v.path] = true
			return e.pos(v.side, trimPath(v.path))
		}
		return 0, false
	}
	if ptr && a.k == 'a' && b.k == 'a' && a.side != b.side {
		// distinct operands
		return op == token.NEQ, op == token.EQL || op == token.NEQ
	}
	for _, v := range []oval{a, b} {
		if v.k == 'c' {
			e.cons[v.cst] = true
		}
	}
	if (a.k == 'd' && b.k == 'c') || (b.k == 'd' && a.k == 'c') {
		e.diff = true
		return false, false
	}
	x, ok1 := num(a)
	y, ok2 := num(b)
	if !ok1 || !ok2 {
		return false, false
	}
	switch op {
	case token.EQL:
		return x == y, true
	case token.NEQ:
		return x != y, true
	case token.LSS:
		return x < y, true
	case token.LEQ:
		return x <= y, true
	case token.GTR:
		return x > y, true
	case token.GEQ:
		return x >= y, true
	}
	return false, false
}

// call evaluates fn and returns the results it may give.
func (e *oenv) call(fn *ssa.Function, args, free []oval, depth int) int {
	if len(fn.Blocks) == 0 || depth > 5 || len(args) != len(fn.Params) || len(free) != len(fn.FreeVars) {
		return mayUnknown
	}
	fr := &oframe{fn: fn, env: map[ssa.Value]oval{}, mem: map[string]oval{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	return e.block(fr, fn.Blocks[0], nil, depth, nil)
}

func (fr *oframe) clone() *oframe {
	n := &oframe{fn: fr.fn, env: make(map[ssa.Value]oval, len(fr.env)), mem: make(map[string]oval, len(fr.mem))}
	for k, v := range fr.env {
		n.env[k] = v
	}
	for k, v := range fr.mem {
		n.mem[k] = v
	}
	return n
}

// block runs from the start of b. stop, when given, is asked at each block for a result.
func (e *oenv) block(fr *oframe, b, prev *ssa.BasicBlock, depth int, stop func(fr *oframe, b, prev *ssa.BasicBlock) (int, bool)) int {
	for {
		if stop != nil {
			if r, ok := stop(fr, b, prev); ok {
				return r
			}
		}
		e.steps++
		if e.steps > 3000 {
			e.limit = true
			return mayUnknown
		}
		phis := map[ssa.Value]oval{}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				v := oval{}
				for i, p := range b.Preds {
					if p == prev {
						v = e.val(fr, x.Edges[i])
					}
				}
				phis[x] = v
				continue
			default:
				for k, v := range phis {
					fr.env[k] = v
				}
				phis = map[ssa.Value]oval{}
			}
			switch x := in.(type) {
			case *ssa.If:
				c := e.val(fr, x.Cond)
				if c.k != 'b' {
					n := fr.clone()
					r := e.block(n, b.Succs[0], b, depth, stop)
					return r | e.block(fr, b.Succs[1], b, depth, stop)
				}
				prev = b
				if c.b {
					b = b.Succs[0]
				} else {
					b = b.Succs[1]
				}
				goto next
			case *ssa.Jump:
				prev, b = b, b.Succs[0]
				goto next
			case *ssa.Return:
				if len(x.Results) != 1 {
					return mayUnknown
				}
				switch v := e.val(fr, x.Results[0]); {
				case v.k == 'b' && v.b:
					return mayTrue
				case v.k == 'b':
					return mayFalse
				}
				return mayTrue | mayFalse | mayUnknown
			case *ssa.Panic:
				return 0
			case ssa.Value:
				fr.env[x] = e.step(fr, x, depth)
			case *ssa.Store:
				if a := e.val(fr, x.Addr); a.k == 'l' {
					for k := range fr.mem {
						if strings.HasPrefix(k, memKey(a.base, a.path)) {
							delete(fr.mem, k)
						}
					}
					fr.mem[memKey(a.base, a.path)] = e.val(fr, x.Val)
				}
			}
		}
		return mayUnknown
	next:
	}
}

func (e *oenv) step(fr *oframe, v ssa.Value, depth int) oval {
	switch x := v.(type) {
	case *ssa.Alloc:
		return oval{k: 'l', base: x}
	case *ssa.FieldAddr:
		return e.field(e.val(fr, x.X), x.X.Type(), x.Field)
	case *ssa.Field:
		return e.field(e.val(fr, x.X), x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		if i := e.val(fr, x.Index); i.k == 'i' {
			e.elem = x.Type().Underlying().(*types.Pointer).Elem()
			return oval{k: 'a', side: i.side}
		}
	case *ssa.Index:
		if i := e.val(fr, x.Index); i.k == 'i' {
			e.elem = x.Type()
			return oval{k: 'e', side: i.side}
		}
	case *ssa.UnOp:
		a := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			if a.k == 'a' {
				a.k = 'e'
				return a
			}
			if a.k == 'l' {
				// the value stored there, or the field of one stored in a part that contains it
				for p, rest := a.path, ""; ; {
					if s, ok := fr.mem[memKey(a.base, p)]; ok {
						if rest != "" {
							if s.k != 'e' {
								return oval{}
							}
							for _, f := range strings.Split(strings.TrimPrefix(rest, "."), ".") {
								if f != "Element" {
									s.path += "." + f
								}
							}
						}
						return s
					}
					i := strings.LastIndexByte(p, '.')
					if i < 0 {
						return oval{}
					}
					rest = p[i:] + rest
					p = p[:i]
				}
			}
		case token.NOT:
			if a.k == 'b' {
				a.b = !a.b
				return a
			}
		}
	case *ssa.ChangeType:
		return e.val(fr, x.X)
	case *ssa.Convert:
		a := e.val(fr, x.X)
		if a.k == 'i' || widens(x.X.Type(), x.Type()) {
			return a
		}
		if a.k == 'e' {
			// decided by the narrowed value, whose order is its own
			a.path += "#" + x.Type().String()
			return a
		}
	case *ssa.BinOp:
		a, b := e.val(fr, x.X), e.val(fr, x.Y)
		if x.Op == token.SUB && a.k == 'e' && b.k == 'e' && a.side != b.side {
			return oval{k: 'd'}
		}
		if (x.Op == token.ADD || x.Op == token.SUB) && a.k == 'i' && b.k == 'c' {
			if x.Op == token.SUB {
				b.cst = -b.cst
			}
			a.side += int(b.cst)
			return a
		}
		_, ptr := x.X.Type().Underlying().(*types.Pointer)
		if r, ok := e.cmp(x.Op, a, b, ptr); ok {
			return oval{k: 'b', b: r}
		}
	case *ssa.MakeClosure:
		f := oval{k: 'f', fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.free = append(f.free, e.val(fr, b))
		}
		return f
	case *ssa.Call:
		com := x.Common()
		if com.IsInvoke() {
			return oval{}
		}
		var args []oval
		rel := false
		for _, a := range com.Args {
			v := e.val(fr, a)
			if v.k == 'e' || v.k == 'a' || v.k == 'i' {
				rel = true
			}
			if v.k == 'l' {
				// a local's address: pass what is in it
				if s, ok := fr.mem[memKey(v.base, v.path)]; ok && s.k == 'e' {
					s.k = 'a'
					v, rel = s, true
				}
			}
			args = append(args, v)
		}
		f := com.StaticCallee()
		var free []oval
		if f == nil {
			c := e.val(fr, com.Value)
			f, free = c.fn, c.free
		} else if c, ok := com.Value.(*ssa.MakeClosure); ok {
			free = e.val(fr, c).free
		}
		if f == nil || !rel || !strings.HasPrefix(PkgPath(f), load.ModPath) {
			return oval{}
		}
		if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			return oval{}
		}
		switch e.call(f, args, free, depth+1) {
		case mayTrue:
			return oval{k: 'b', b: true}
		case mayFalse:
			return oval{k: 'b'}
		}
	}
	return oval{}
}

// comparator is a function that decides which of two things comes first.
type comparator struct {
	fn    *ssa.Function
	index bool
	elem  types.Type
	used  []string // compared fields
	diff  bool
	vals  []int // positions a field takes
	table func(a, b []int) int
	open  bool // depends on things the evaluation does not see
}

// comparatorOf evaluates fn as a comparator; nil when it is none.
func (o *orders) comparatorOf(fn *ssa.Function) *comparator {
	sig := fn.Signature
	if sig.Results().Len() != 1 {
		return nil
	}
	if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return nil
	}
	var args []oval
	less := false
	p := fn.Params
	isInt := func(v *ssa.Parameter) bool {
		b, ok := v.Type().(*types.Basic)
		return ok && b.Kind() == types.Int
	}
	switch {
	case len(p) == 2 && isInt(p[0]) && isInt(p[1]):
		args = []oval{{k: 'i', side: 0}, {k: 'i', side: 1}}
		less = true
	case len(p) == 3 && isInt(p[1]) && isInt(p[2]) && fn.Name() == "Less":
		args = []oval{{}, {k: 'i', side: 0}, {k: 'i', side: 1}}
		less = true
	case len(p) == 2 && elementType(p[0].Type()) && elementType(p[1].Type()):
		for i, q := range p {
			k := byte('e')
			if _, ok := q.Type().(*types.Pointer); ok {
				k = 'a'
			}
			args = append(args, oval{k: k, side: i})
		}
	default:
		return nil
	}
	free := make([]oval, len(fn.FreeVars))
	used, cons := map[string]bool{}, map[int64]bool{}
	c := &comparator{fn: fn}
	eval := func(pos func(int, string) (int, bool)) int {
		e := &oenv{o: o, pos: pos, used: used, cons: cons}
		r := e.call(fn, args, free, 0)
		c.index = c.index || e.index
		c.diff = c.diff || e.diff
		if e.elem != nil {
			c.elem = e.elem
		}
		if e.limit {
			c.open = true
		}
		return r
	}
	// which fields matter: nothing known, every branch both ways
	eval(func(int, string) (int, bool) { return 0, false })
	if !less {
		c.elem = p[0].Type()
	}
	for f := range used {
		c.used = append(c.used, trimPath(f))
	}
	sort.Strings(c.used)
	if len(c.used) == 0 || len(c.used) > 5 {
		if c.diff {
			return c
		}
		return nil
	}
	c.vals = []int{100, 200}
	if len(c.used) <= 3 {
		c.vals = append(c.vals, 300)
	}
	for k := range cons {
		if k >= -1<<30 && k < 1<<30 && len(c.vals) < 5 {
			c.vals = append(c.vals, int(k))
		}
	}
	idx := map[string]int{}
	for i, f := range c.used {
		idx[f] = i
	}
	c.table = func(a, b []int) int {
		return eval(func(side int, path string) (int, bool) {
			i, ok := idx[path]
			if !ok || side < 0 || side > 1 {
				return 0, false
			}
			if side == 0 {
				return a[i], true
			}
			return b[i], true
		})
	}
	return c
}

// points enumerates all positions of the used fields.
func (c *comparator) points() [][]int {
	l := [][]int{nil}
	for range c.used {
		var n [][]int
		for _, p := range l {
			for _, v := range c.vals {
				n = append(n, append(append([]int{}, p...), v))
			}
		}
		l = n
	}
	return l
}

func (c *comparator) show(p []int) string {
	var s []string
	for i, f := range c.used {
		if f == "" {
			f = "value"
		}
		s = append(s, fmt.Sprintf("%s %d", f, p[i]))
	}
	return "{" + strings.Join(s, ", ") + "}"
}

// above: the order that keys describe.
func (c *comparator) above(keys []struct {
	field string
	desc  bool
}, a, b []int) bool {
	for _, k := range keys {
		for i, f := range c.used {
			if f != k.field || a[i] == b[i] {
				continue
			}
			return (a[i] > b[i]) == k.desc
		}
	}
	return false
}

func (c *comparator) uses(f string) bool {
	for _, u := range c.used {
		if u == f {
			return true
		}
	}
	return false
}

// judge reports what is wrong with a comparator. wantRank: documented as the ranking order.
func (o *orders) judge(c *comparator, wantRank bool) (kind string) {
	fn := c.fn
	rep := func(rule, msg string) {
		o.r.Add(Finding{Rule: rule, Key: rule + "|" + Short(fn), Pos: o.c.Pos(fn.Pos()), Msg: Short(fn) + ": " + msg})
	}
	if c.diff {
		rep("not-an-order", "compares by the sign of a difference, which wraps around for values that are far apart")
		return ""
	}
	if c.open || c.table == nil {
		o.r.Note(Short(fn) + ": comparison not understood")
		return ""
	}
	pts := c.points()
	n := len(pts)
	if n > 300 {
		pts = pts[:300]
		n = len(pts)
	}
	t := make([][]int, n)
	unknown := false
	for i := range pts {
		t[i] = make([]int, n)
		for j := range pts {
			t[i][j] = c.table(pts[i], pts[j])
			if t[i][j]&mayUnknown != 0 {
				unknown = true
			}
		}
	}
	o.r.Inc("orderings_evaluated", n*n)
	if unknown {
		o.r.Note(Short(fn) + ": comparison not understood")
		return ""
	}
	sym := true
	for i := range pts {
		for j := range pts {
			if t[i][j] != t[j][i] {
				sym = false
			}
		}
	}
	if sym && !wantRank && t[0][0] == mayTrue {
		return "" // tells whether two are alike
	}
	elem := c.elem != nil && elementType(c.elem)
	keys := rankOrder
	name := "ranking order (score, tie breaker descending, then update time, id ascending)"
	if c.index {
		keys, name = indexOrder, "order of index entries (segment, then id)"
	}
	if elem && (wantRank || c.uses("Score") && !(c.index && !c.uses("TieBreaker"))) {
		for _, k := range keys {
			if !c.uses(k.field) {
				rep("other-order", fmt.Sprintf("does not compare %s; its order differs from the %s", k.field, name))
				return ""
			}
		}
		for i := range pts {
			for j := range pts {
				w := mayFalse
				if c.above(keys, pts[i], pts[j]) {
					w = mayTrue
				}
				if t[i][j] != w && t[i][j] != 0 {
					rep("other-order", fmt.Sprintf("puts %s %s %s, against the %s", c.show(pts[i]),
						map[bool]string{true: "above", false: "not above"}[w == mayFalse], c.show(pts[j]), name))
					return ""
				}
			}
		}
		o.r.Inc("comparators_with_the_ranking_order", 1)
		return "rank"
	}
	for i := range pts {
		for j := range pts {
			if t[i][j]&mayTrue != 0 && t[j][i]&mayTrue != 0 {
				rep("not-an-order", fmt.Sprintf("puts %s above %s and the other way round", c.show(pts[i]), c.show(pts[j])))
				return ""
			}
		}
	}
	if n <= 64 {
		for i := range pts {
			for j := range pts {
				for k := range pts {
					if t[i][j] == mayTrue && t[j][k] == mayTrue && t[i][k] == mayFalse {
						rep("not-an-order", fmt.Sprintf("puts %s above %s above %s, but not the first above the last", c.show(pts[i]), c.show(pts[j]), c.show(pts[k])))
						return ""
					}
					if t[i][j]|t[j][i] == mayFalse && t[j][k]|t[k][j] == mayFalse && (t[i][k] == mayTrue || t[k][i] == mayTrue) {
						rep("not-an-order", fmt.Sprintf("does not tell %s from %s from %s, but the first from the last", c.show(pts[i]), c.show(pts[j]), c.show(pts[k])))
						return ""
					}
				}
			}
		}
	}
	o.r.Inc("other_comparators", 1)
	return strings.Join(c.used, ",")
}

// lessFns resolves a less argument to the functions it can be.
func (o *orders) lessFns(v ssa.Value, depth int) []*ssa.Function {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return o.lessFns(x.X, depth+1)
	case *ssa.Phi:
		var l []*ssa.Function
		for _, e := range x.Edges {
			l = append(l, o.lessFns(e, depth+1)...)
		}
		return l
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil {
			return nil
		}
		var l []*ssa.Function
		EachInstr(f, func(in ssa.Instruction) {
			if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
				l = append(l, o.lessFns(r.Results[0], depth+1)...)
			}
		})
		return l
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var l []*ssa.Function
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
					l = append(l, o.lessFns(st.Val, depth+1)...)
				}
			}
			return l
		}
	}
	return nil
}

func init() {
	register("C09", "abstract evaluation of comparators over field orderings; sort-order and linear-form dataflow on go/ssa", func(c *Ctx) *Result {
		r := NewResult()
		o := &orders{c: c, r: r}
		r.Rules = []string{"other-order", "not-an-order", "compared-in-part", "left-in-other-order", "wrong-duplicate-removed", "rank-ends-disagree"}
		r.Explanation = "Every comparator is evaluated for all orderings of the fields it compares: element comparators must be the documented ranking order, " +
			"others strict weak orders. Elements are not ordered by part of their fields elsewhere, are not left sorted in another order, the duplicate that " +
			"Deduplicate removes is the documented one, and ranks from the top and bottom are computed from the same position."
		kind := map[*ssa.Function]string{}
		var fns []*ssa.Function
		for _, f := range c.P.Funcs {
			if strings.HasPrefix(PkgPath(f), load.ModPath) && f.Synthetic == "" && len(f.Blocks) > 0 && !generatedPkg(PkgPath(f)) {
				fns = append(fns, f)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return Short(fns[i]) < Short(fns[j]) })
		want := map[*ssa.Function]bool{}
		for _, f := range fns {
			switch Short(f) {
			case "(rankdb.Element).Above", "(*rankdb.Element).aboveP":
				want[f] = true
			case "(rankdb.Elements).Sorter":
				EachInstr(f, func(in ssa.Instruction) {
					if ret, ok := in.(*ssa.Return); ok {
						for _, g := range o.lessFns(ret.Results[0], 0) {
							want[g] = true
						}
					}
				})
			case "(rankdb.RankedElements).Sort":
				for _, g := range o.sorts(f) {
					for _, h := range g.less {
						want[h] = true
					}
				}
			}
		}
		isCmp := map[*ssa.Function]bool{}
		for _, f := range fns {
			cm := o.comparatorOf(f)
			if cm == nil {
				continue
			}
			isCmp[f] = true
			r.Inc("comparators", 1)
			kind[f] = o.judge(cm, want[f])
			Debugf("comparator %s used %v index %v: %s\n", Short(f), cm.used, cm.index, kind[f])
			if len(cm.used) > 0 {
				r.Sample(Short(f) + " compares " + strings.TrimPrefix(strings.Join(append([]string{"values"}, cm.used...), " "), "values  "))
			}
		}
		for _, f := range fns {
			if !isCmp[f] && (f.Parent() == nil || !isCmp[f.Parent()]) {
				o.partial(f)
			}
			o.leftSorted(f, kind)
			o.duplicates(f)
			o.ends(f)
		}
		r.Floors["comparators"] = 6
		r.Floors["comparators_with_the_ranking_order"] = 2
		r.Floors["element_sorts"] = 3
		r.Floors["rank_pairs"] = 4
		r.Assumptions = append(r.Assumptions, "positions of elements found by merging, inserting and searching are not proved; only the comparisons they use are")
		return r
	})
}

// generatedPkg: code generated by goa.
func generatedPkg(p string) bool {
	p = strings.TrimPrefix(p, load.ModPath)
	for _, g := range []string{"/api/app", "/api/client", "/api/tool", "/api/swagger", "/api/design"} {
		if p == g || strings.HasPrefix(p, g+"/") {
			return true
		}
	}
	return false
}

type sortCall struct {
	call  *ssa.Call
	slice ssa.Value
	less  []*ssa.Function
	check bool // only tests
}

// sorts of a function.
func (o *orders) sorts(f *ssa.Function) []sortCall {
	var l []sortCall
	EachInstr(f, func(in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		g := call.Common().StaticCallee()
		if g == nil {
			return
		}
		n := g.String()
		switch n {
		case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
			a := call.Common().Args
			s := sortCall{call: call, slice: a[0], less: o.lessFns(a[1], 0), check: n == "sort.SliceIsSorted"}
			if m, ok := a[0].(*ssa.MakeInterface); ok {
				s.slice = m.X
			}
			l = append(l, s)
		}
	})
	return l
}

func elemSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && elementType(s.Elem())
}

// leftSorted: a function that sorts elements in another order sorts them by rank again before it returns.
func (o *orders) leftSorted(f *ssa.Function, kind map[*ssa.Function]string) {
	type st struct {
		call *ssa.Call
		rank bool
		by   string
	}
	at := map[ssa.Instruction]st{}
	for _, s := range o.sorts(f) {
		if !elemSlice(s.slice.Type()) {
			continue
		}
		o.r.Inc("element_sorts", 1)
		if len(s.less) == 0 {
			continue
		}
		x := st{call: s.call, rank: true}
		for _, l := range s.less {
			if kind[l] != "rank" {
				x.rank, x.by = false, kind[l]
			}
		}
		if s.check {
			if !x.rank && x.by != "" {
				o.r.Add(Finding{Rule: "left-in-other-order", Key: "checked|" + Short(f), Pos: o.c.Pos(s.call.Pos()),
					Msg: fmt.Sprintf("%s: checks that elements are sorted by %s instead of their rank", Short(f), x.by)})
			}
			continue
		}
		at[s.call] = x
	}
	for in, x := range at {
		if x.rank || x.by == "" {
			continue
		}
		// is a return reachable without a sort by rank?
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, from int) token.Pos
		walk = func(b *ssa.BasicBlock, from int) token.Pos {
			for _, i := range b.Instrs[from:] {
				if y, ok := at[i]; ok && y.rank {
					return token.NoPos
				}
				if c, ok := i.(*ssa.Call); ok {
					if g := c.Common().StaticCallee(); g != nil && g != f && o.sortsByRank(g, kind) {
						return token.NoPos
					}
				}
				if r, ok := i.(*ssa.Return); ok {
					return r.Pos()
				}
			}
			for _, s := range b.Succs {
				if !seen[s] {
					seen[s] = true
					if p := walk(s, 0); p != token.NoPos {
						return p
					}
				}
			}
			return token.NoPos
		}
		if p := walk(in.Block(), idxOf(in)+1); p != token.NoPos {
			o.r.Add(Finding{Rule: "left-in-other-order", Key: "left|" + Short(f), Pos: o.c.Pos(in.Pos()),
				Msg: fmt.Sprintf("%s: sorts elements by %s and returns at %s without sorting them by rank again", Short(f), x.by, o.c.Pos(p))})
		}
	}
}

func idxOf(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (o *orders) sortsByRank(g *ssa.Function, kind map[*ssa.Function]string) bool {
	if len(g.Blocks) == 0 || len(g.Params) == 0 {
		return false
	}
	for _, s := range o.sorts(g) {
		if elemSlice(s.slice.Type()) && !s.check && len(s.less) > 0 {
			ok := true
			for _, l := range s.less {
				ok = ok && kind[l] == "rank"
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// elemField: v is (a conversion of) a ranking field loaded from an element; returns the element's address or value.
func elemField(v ssa.Value) (base ssa.Value, field string) {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && elementType(fa.X.Type()) {
				n, _ := fieldName(fa.X.Type(), fa.Field)
				return fa.X, n
			}
		case *ssa.Field:
			if elementType(x.X.Type()) {
				n, _ := fieldName(x.X.Type(), x.Field)
				return x.X, n
			}
		}
		return nil, ""
	}
}

// wholeOf: the element a field belongs to, through embedding and copies.
func wholeOf(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if elementType(x.X.Type()) {
				v = x.X
				continue
			}
		case *ssa.Field:
			if elementType(x.X.Type()) {
				v = x.X
				continue
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && elementType(x.X.Type()) {
				v = x.X
				continue
			}
		case *ssa.Alloc:
			// a local copy assigned once
			var st *ssa.Store
			n := 0
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					st = s
					n++
				}
			}
			if n == 1 {
				v = st.Val
				continue
			}
		}
		break
	}
	return v
}

// partial: two elements ordered by one of their fields outside a comparator.
func (o *orders) partial(f *ssa.Function) {
	dup := o.dedupSite(f) != nil
	alike := map[string]token.Pos{}
	defer func() {
		for _, p := range [][2]string{{"Score", "TieBreaker"}, {"TieBreaker", "Score"}} {
			if pos, ok := alike[p[0]]; ok && alike[p[1]] == token.NoPos && !dup {
				o.r.Add(Finding{Rule: "compared-in-part", Key: "alike|" + Short(f) + "|" + p[0], Pos: o.c.Pos(pos),
					Msg: fmt.Sprintf("%s: takes two elements for equally ranked by %s without comparing %s", Short(f), p[0], p[1])})
			}
		}
	}()
	EachInstr(f, func(in ssa.Instruction) {
		x, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
		case token.EQL, token.NEQ:
			a, fa := elemField(x.X)
			b, fb := elemField(x.Y)
			if a != nil && b != nil && fa == fb && wholeOf(a) != wholeOf(b) {
				o.r.Inc("element_comparisons", 1)
				alike[fa] = x.Pos()
			}
			return
		default:
			return
		}
		a, fa := elemField(x.X)
		b, fb := elemField(x.Y)
		if a == nil || b == nil {
			return
		}
		o.r.Inc("element_comparisons", 1)
		if wholeOf(a) == wholeOf(b) || dup {
			return
		}
		if fa == fb && (fa == "Score" || fa == "TieBreaker" || fa == "Updated" || fa == "ID") {
			o.r.Add(Finding{Rule: "compared-in-part", Key: "part|" + Short(f) + "|" + fa, Pos: o.c.Pos(x.Pos()),
				Msg: fmt.Sprintf("%s: decides which of two elements comes first by %s alone", Short(f), fa)})
		}
	})
}

// dedupSite: the call that closes the gap of a removed element next to another: append(x[:j], x[j+1:]...) with j
// one of two neighbouring positions.
func (o *orders) dedupSite(f *ssa.Function) (j *ssa.Phi) {
	EachInstr(f, func(in ssa.Instruction) {
		s, ok := in.(*ssa.Slice)
		if !ok || s.High == nil || s.Low != nil || !elemSlice(s.X.Type()) {
			return
		}
		p, ok := s.High.(*ssa.Phi)
		if !ok {
			return
		}
		i, i1 := false, false
		for _, e := range flattenPhi(p, nil) {
			switch x := e.(type) {
			case *ssa.BinOp:
				if c, ok := x.Y.(*ssa.Const); ok && x.Op == token.SUB && c.Value != nil && c.Int64() == 1 {
					i1 = true
				}
			default:
				i = true
			}
		}
		if i && i1 {
			j = p
		}
	})
	return
}

func flattenPhi(p *ssa.Phi, seen map[*ssa.Phi]bool) []ssa.Value {
	if seen == nil {
		seen = map[*ssa.Phi]bool{}
	}
	if seen[p] {
		return nil
	}
	seen[p] = true
	// the loop variable itself is an end
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.X == ssa.Value(p) {
			return []ssa.Value{p}
		}
	}
	var l []ssa.Value
	for _, e := range p.Edges {
		if q, ok := e.(*ssa.Phi); ok {
			sub := flattenPhi(q, seen)
			l = append(l, sub...)
			continue
		}
		l = append(l, e)
	}
	return l
}

// duplicates: of two elements with one ID, the one updated last stays, of those the one with the higher score.
func (o *orders) duplicates(f *ssa.Function) {
	j := o.dedupSite(f)
	if j == nil {
		return
	}
	// the loop variable and where a round starts
	var i *ssa.Phi
	for _, e := range flattenPhi(j, nil) {
		v := e
		if b, ok := v.(*ssa.BinOp); ok {
			v = b.X
		}
		if p, ok := v.(*ssa.Phi); ok {
			if i != nil && i != p {
				return
			}
			i = p
		}
	}
	if i == nil {
		return
	}
	head := i.Block()
	fields := []string{"ID", "Updated", "Score"}
	vals := []int{100, 200}
	understood := true
	for _, id := range vals {
		for _, ua := range vals {
			for _, ub := range vals {
				for _, sa := range vals {
					for _, sb := range vals {
						a := map[string]int{"ID": 100, "Updated": ua, "Score": sa}
						b := map[string]int{"ID": id, "Updated": ub, "Score": sb}
						e := &oenv{o: o, used: map[string]bool{}, cons: map[int64]bool{}, pos: func(side int, path string) (int, bool) {
							m := a
							if side == 0 {
								m = b
							} else if side != -1 {
								return 0, false
							}
							v, ok := m[path]
							return v, ok
						}}
						fr := &oframe{fn: f, env: map[ssa.Value]oval{i: {k: 'i', side: 0}}, mem: map[string]oval{}}
						// bit 8: element at i-1 removed, bit 16: element at i removed, bit 32: none
						res := 0
						first := true
						stop := func(fr *oframe, blk, prev *ssa.BasicBlock) (int, bool) {
							if blk == head && !first {
								return 32, true
							}
							first = false
							if blk == j.Block() && blk != head {
								for n, p := range blk.Preds {
									if p == prev {
										switch v := e.val(fr, j.Edges[n]); {
										case v.k == 'i' && v.side == 0:
											return 16, true
										case v.k == 'i' && v.side == -1:
											return 8, true
										}
									}
								}
								return mayUnknown, true
							}
							return 0, false
						}
						// run the head's instructions without its phis
						res = e.from(fr, head, stop)
						if res&mayUnknown != 0 || e.limit {
							understood = false
							continue
						}
						o.r.Inc("duplicate_cases", 1)
						want := 0
						switch {
						case id != 100:
							want = 32
						case ua != ub:
							if ua < ub {
								want = 8
							} else {
								want = 16
							}
						case sa < sb:
							want = 8
						case sa > sb:
							want = 16
						default:
							want = 8 | 16
						}
						// leaving the loop returns through 0 results
						got := res & (8 | 16 | 32)
						if got&^want != 0 && got != 0 {
							var s []string
							for _, k := range fields {
								s = append(s, fmt.Sprintf("%s %d/%d", k, a[k], b[k]))
							}
							what := map[int]string{8: "the first is removed", 16: "the second is removed", 32: "both stay"}
							o.r.Add(Finding{Rule: "wrong-duplicate-removed", Key: "duplicate|" + Short(f), Pos: o.c.Pos(f.Pos()),
								Msg: fmt.Sprintf("%s: of two elements with %s %s; the one updated last stays, of those the one with the higher score", Short(f), strings.Join(s, ", "), what[got&^want&-(got&^want)])})
							return
						}
					}
				}
			}
		}
	}
	if !understood {
		o.r.Note(Short(f) + ": removal of duplicates not understood")
	}
}

// from runs block b as block does, keeping the values of its phis.
func (e *oenv) from(fr *oframe, b *ssa.BasicBlock, stop func(*oframe, *ssa.BasicBlock, *ssa.BasicBlock) (int, bool)) int {
	i := fr.env
	keep := map[ssa.Value]oval{}
	for k, v := range i {
		keep[k] = v
	}
	stop(fr, b, nil)
	var last ssa.Instruction
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = e.step(fr, v, 0)
		}
		last = in
	}
	for k, v := range keep {
		fr.env[k] = v
	}
	r := 0
	switch x := last.(type) {
	case *ssa.If:
		c := e.val(fr, x.Cond)
		if c.k != 'b' || c.b {
			r |= e.block(fr.clone(), b.Succs[0], b, 0, stop)
		}
		if c.k != 'b' || !c.b {
			r |= e.leave(fr.clone(), b.Succs[1], b, stop)
		}
	case *ssa.Jump:
		r = e.block(fr, b.Succs[0], b, 0, stop)
	}
	return r
}

// leave: the loop's exit decides nothing.
func (e *oenv) leave(fr *oframe, b, prev *ssa.BasicBlock, stop func(*oframe, *ssa.BasicBlock, *ssa.BasicBlock) (int, bool)) int {
	return 0
}

// linear is a sum of terms.
type linear struct {
	t map[string]int64
	c int64
}

func (a linear) add(b linear, k int64) linear {
	r := linear{t: map[string]int64{}, c: a.c + k*b.c}
	for n, v := range a.t {
		r.t[n] += v
	}
	for n, v := range b.t {
		r.t[n] += k * v
		if r.t[n] == 0 {
			delete(r.t, n)
		}
	}
	return r
}

func (a linear) String() string {
	var ks []string
	for k := range a.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf(" %+d*%s", a.t[k], k)
	}
	return strings.TrimSpace(fmt.Sprintf("%s %+d", s, a.c))
}

// accessPath names a value or place for the linear forms.
func accessPath(v ssa.Value, depth int) string {
	if depth > 8 {
		return fmt.Sprintf("%p", v)
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		n, emb := fieldName(x.X.Type(), x.Field)
		if emb {
			return accessPath(x.X, depth+1)
		}
		return accessPath(x.X, depth+1) + "." + n
	case *ssa.Field:
		n, emb := fieldName(x.X.Type(), x.Field)
		if emb {
			return accessPath(x.X, depth+1)
		}
		return accessPath(x.X, depth+1) + "." + n
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return accessPath(x.X, depth+1)
		}
	case *ssa.Alloc:
		// a parameter's or range element's copy
		var st *ssa.Store
		n := 0
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				st = s
				n++
			}
		}
		if n == 1 {
			return accessPath(st.Val, depth+1)
		}
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len(" + accessPath(x.Common().Args[0], depth+1) + ")"
		}
	}
	mark := "#"
	switch v.(type) {
	case *ssa.Call, *ssa.Phi, *ssa.Extract, *ssa.Lookup, *ssa.TypeAssert:
		mark = ""
	}
	return fmt.Sprintf("%s@%s%p", v.Name(), mark, v)
}

func (o *orders) lin(v ssa.Value, depth int) linear {
	if depth < 10 {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Int {
				return linear{c: x.Int64()}
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD:
				return o.lin(x.X, depth+1).add(o.lin(x.Y, depth+1), 1)
			case token.SUB:
				return o.lin(x.X, depth+1).add(o.lin(x.Y, depth+1), -1)
			}
		case *ssa.ChangeType:
			return o.lin(x.X, depth+1)
		case *ssa.UnOp:
			if x.Op == token.SUB {
				return linear{}.add(o.lin(x.X, depth+1), -1)
			}
			// a local written once
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				var st *ssa.Store
				n := 0
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						st = s
						n++
					}
				}
				if n == 1 {
					return o.lin(st.Val, depth+1)
				}
			}
		}
	}
	return linear{t: map[string]int64{accessPath(v, 0): 1}}
}

// agrees: top and bottom describe one position.
func (o *orders) agrees(top, bottom linear) bool {
	s := top.add(bottom, 1)
	if len(s.t) == 1 && s.c == -1 {
		for _, v := range s.t {
			return v == 1 // total - 1
		}
	}
	if len(s.t) == 2 && s.c == 0 {
		// both ends of one thing
		var b []string
		for k, v := range s.t {
			if v != 1 {
				return false
			}
			b = append(b, k)
		}
		sort.Strings(b)
		x, y := b[0], b[1]
		if strings.HasSuffix(x, ".FromBottom") && strings.HasSuffix(y, ".FromTop") {
			return strings.TrimSuffix(x, ".FromBottom") == strings.TrimSuffix(y, ".FromTop")
		}
	}
	return false
}

// ends: FromTop and FromBottom of one element describe the same position.
func (o *orders) ends(f *ssa.Function) {
	type pair struct {
		top, bottom []*ssa.Store
	}
	objs := map[string]*pair{}
	get := func(k string) *pair {
		if objs[k] == nil {
			objs[k] = &pair{}
		}
		return objs[k]
	}
	EachInstr(f, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		if b, ok := st.Val.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		n, _ := fieldName(fa.X.Type(), fa.Field)
		k := fmt.Sprintf("%p", fa.X)
		if a, ok := fa.X.(*ssa.Alloc); ok {
			k = fmt.Sprintf("%p", a)
		}
		switch n {
		case "FromTop":
			get(k).top = append(get(k).top, st)
		case "FromBottom":
			get(k).bottom = append(get(k).bottom, st)
		}
	})
	// the total that ranks from the bottom are counted from is a number of elements
	EachInstr(f, func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		g := ci.Common().StaticCallee()
		if g == nil || g.Name() != "CalculateFromBottom" || len(ci.Common().Args) != 2 {
			return
		}
		o.r.Inc("rank_pairs", 1)
		if t := o.lin(ci.Common().Args[1], 0); len(t.t) == 1 && t.c != 0 {
			o.r.Add(Finding{Rule: "rank-ends-disagree", Key: "ends|" + Short(f) + "|total", Pos: o.c.Pos(in.Pos()),
				Msg: fmt.Sprintf("%s: ranks from the bottom are counted from %s, not from the number of elements", Short(f), clean(t))})
		}
	})
	for _, p := range objs {
		if len(p.bottom) == 0 && len(p.top) == 1 {
			// the last element: nothing below it
			t := o.lin(p.top[0].Val, 0)
			if len(t.t) != 1 || t.c == -1 {
				continue
			}
			for k, n := range t.t {
				if n == 1 && (strings.HasSuffix(k, ".Elements") || strings.HasPrefix(k, "len(")) {
					o.r.Add(Finding{Rule: "rank-ends-disagree", Key: "ends|" + Short(f) + "|last", Pos: o.c.Pos(p.top[0].Pos()),
						Msg: fmt.Sprintf("%s: the rank from the top of an element with nothing below it is %s, not the number of elements less one", Short(f), clean(t))})
				}
			}
		}
		if len(p.bottom) != 1 || len(p.top) > 1 {
			continue
		}
		bs := p.bottom[0]
		base := bs.Addr.(*ssa.FieldAddr).X
		bottom := o.lin(bs.Val, 0)
		var top linear
		if len(p.top) == 1 {
			top = o.lin(p.top[0].Val, 0)
		} else {
			top = linear{t: map[string]int64{accessPath(base, 0) + ".FromTop": 1}}
		}
		o.r.Inc("rank_pairs", 1)
		if o.agrees(top, bottom) {
			continue
		}
		if ok, known := o.countsAlong(f, top, bottom); ok {
			continue
		} else if !known && opaque(top.add(bottom, 1)) {
			o.r.Note(Short(f) + ": ranks come from values that are not followed")
			continue
		}
		o.r.Add(Finding{Rule: "rank-ends-disagree", Key: "ends|" + Short(f), Pos: o.c.Pos(bs.Pos()),
			Msg: fmt.Sprintf("%s: FromTop and FromBottom do not describe one position: their sum is %s, not the number of elements less one", Short(f), clean(top.add(bottom, 1)))})
	}
}

// opaque: depends on results of calls or on values that were joined.
func opaque(l linear) bool {
	for k := range l.t {
		if strings.Contains(k, "@") && !strings.Contains(k, "#") {
			return true
		}
	}
	return false
}

func clean(l linear) string {
	s := l.String()
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '@' {
			for i < len(s) && s[i] != '.' && s[i] != ' ' && s[i] != ')' {
				i++
			}
			if i == len(s) {
				break
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// countsAlong: both come from parameters, or from loop variables that start there and move in opposite directions;
// every caller passes a pair that agrees.
func (o *orders) countsAlong(f *ssa.Function, top, bottom linear) (ok, known bool) {
	one := func(l linear) ssa.Value {
		if len(l.t) != 1 || l.c != 0 {
			return nil
		}
		for k := range l.t {
			for _, p := range f.Params {
				if accessPath(p, 0) == k {
					return p
				}
			}
			var r ssa.Value
			EachInstr(f, func(in ssa.Instruction) {
				if p, ok := in.(*ssa.Phi); ok && accessPath(p, 0) == k {
					r = p
				}
			})
			return r
		}
		return nil
	}
	t, b := one(top), one(bottom)
	pt, ok1 := t.(*ssa.Phi)
	pb, ok2 := b.(*ssa.Phi)
	if ok1 && ok2 && pt.Block() == pb.Block() {
		var t0, b0 ssa.Value
		for i := range pt.Edges {
			lt, lb := o.lin(pt.Edges[i], 0), o.lin(pb.Edges[i], 0)
			self := linear{t: map[string]int64{accessPath(pt, 0): 1, accessPath(pb, 0): 1}}
			if d := lt.add(lb, 1).add(self, -1); len(d.t) == 0 {
				if d.c != 0 {
					return false, true
				}
				continue
			}
			if t0 != nil {
				return false, false
			}
			t0, b0 = pt.Edges[i], pb.Edges[i]
		}
		t, b = t0, b0
	}
	qt, ok1 := t.(*ssa.Parameter)
	qb, ok2 := b.(*ssa.Parameter)
	if !ok1 || !ok2 {
		return false, false
	}
	it, ib := -1, -1
	for i, p := range f.Params {
		if p == qt {
			it = i
		}
		if p == qb {
			ib = i
		}
	}
	for _, g := range o.c.P.Funcs {
		EachInstr(g, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() != f {
				return
			}
			a := c.Common().Args
			lt, lb := o.lin(a[it], 0), o.lin(a[ib], 0)
			o.r.Inc("rank_pairs", 1)
			if s := lt.add(lb, 1); !o.agrees(lt, lb) && !opaque(s) {
				o.r.Add(Finding{Rule: "rank-ends-disagree", Key: "ends|" + Short(g) + "|" + Short(f), Pos: o.c.Pos(in.Pos()),
					Msg: fmt.Sprintf("%s: the positions from the top and from the bottom passed to %s do not describe one position: their sum is %s", Short(g), Short(f), clean(lt.add(lb, 1)))})
			}
		})
	}
	return true, true
}
