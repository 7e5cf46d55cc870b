// Package ai is a path-sensitive abstract interpreter ("property simulation") over go/ssa.
//
// It propagates finite abstract states over the control flow of an entry point and everything it
// calls inside the analysed packages. Values are access paths, allocation sites, closures and
// opaque symbols; branch conditions refine nil/bool facts. Nothing is executed and no solver is
// used: a fixpoint over abstract states covers every path, merging states that agree on live data.
package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind of abstract value.
type Kind uint8

// Kinds of abstract values.
const (
	KConst  Kind = iota // constant, S is the exact value
	KNil                // nil
	KSym                // opaque value produced at a site
	KAlloc              // address of an object allocated at a site
	KField              // address of field S of *Args[0]
	KIndex              // address of element Args[1] of Args[0]
	KDeref              // initial content of location Args[0]
	KFn                 // function or closure
	KExpr               // pure operator S applied to Args
	KTuple              // tuple
	KGlobal             // address of a package level variable
	KIface              // Args[0] converted to an interface (dynamic type T)
	KParam              // parameter of an entry point
)

// V is a hash-consed abstract value.
type V struct {
	ID     int
	K      Kind
	S      string
	Old    bool // summary of earlier instances created at the same site
	Args   []*V
	Fn     *ssa.Function
	T      types.Type
	C      constant.Value
	Depth  int
	NonNil bool // always non-nil (symbols known from their producer)
	h      uint64
	hasFn  bool
}

type interner struct {
	tab map[string]*V
	all []*V
}

func (in *interner) mk(k Kind, s string, old bool, fn *ssa.Function, t types.Type, args ...*V) *V {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%v|", k, s, old)
	if fn != nil {
		fmt.Fprintf(&b, "%p", fn)
	}
	d := 0
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.ID)
		if a.Depth > d {
			d = a.Depth
		}
	}
	key := b.String()
	if v, ok := in.tab[key]; ok {
		return v
	}
	v := &V{ID: len(in.all) + 1, K: k, S: s, Old: old, Args: append([]*V(nil), args...), Fn: fn, T: t, Depth: d + 1}
	v.h = mix(uint64(v.ID))
	v.hasFn = k == KFn
	for _, a := range args {
		v.hasFn = v.hasFn || a.hasFn
	}
	in.tab[key] = v
	in.all = append(in.all, v)
	return v
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// String renders a value as a readable access path.
func (v *V) String() string {
	if v == nil {
		return "<none>"
	}
	o := ""
	if v.Old {
		o = "'"
	}
	switch v.K {
	case KConst:
		return v.S
	case KNil:
		return "nil"
	case KSym, KAlloc:
		return shortSite(v.S) + o
	case KParam:
		return v.S
	case KField:
		return v.Args[0].String() + "." + v.S
	case KIndex:
		return v.Args[0].String() + "[" + v.Args[1].String() + "]"
	case KDeref:
		a := v.Args[0]
		if a.K == KField || a.K == KGlobal || a.K == KIndex {
			return a.String()
		}
		return "*" + a.String()
	case KFn:
		return "func:" + v.Fn.Name()
	case KGlobal:
		return v.S
	case KIface:
		return v.Args[0].String()
	}
	var p []string
	for _, a := range v.Args {
		p = append(p, a.String())
	}
	return v.S + "(" + strings.Join(p, ",") + ")"
}

func shortSite(s string) string {
	if i := strings.IndexByte(s, '@'); i > 0 {
		return s[:i]
	}
	return s
}

// Mentions reports whether v contains x.
func (v *V) Mentions(x *V) bool {
	if v == x {
		return true
	}
	for _, a := range v.Args {
		if a.Mentions(x) {
			return true
		}
	}
	return false
}

// Any reports whether p holds for v or a subterm.
func (v *V) Any(p func(*V) bool) bool {
	if p(v) {
		return true
	}
	for _, a := range v.Args {
		if a.Any(p) {
			return true
		}
	}
	return false
}

// Root returns the base of an access path.
func (v *V) Root() *V {
	for {
		switch v.K {
		case KField, KIndex, KDeref, KIface:
			v = v.Args[0]
		default:
			return v
		}
	}
}
