package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// session is an evaluator with the usual assumptions: geodesic formulas are
// uninterpreted functions, and the references inside library objects that
// every constructor sets are set (N01 verifies those class invariants).
func session(p *Prog) *Ev {
	ev := openSession(p)
	pureGeo(ev, p)
	return ev
}

// openSession looks into the geodesic formulas as well.
func openSession(p *Prog) *Ev {
	ev := NewEv(p)
	ev.iniHook = func(t, a *Term, ty types.Type) { ev.assumeRefs(t, a, ty) }
	return ev
}

// assumeRefs marks references that class invariants keep non-nil.
func (ev *Ev) assumeRefs(t, a *Term, ty types.Type) {
	if _, ok := types.Unalias(ty).Underlying().(*types.Signature); ok && a.op == "fld" {
		if _, named := types.Unalias(ty).(*types.Named); named {
			ev.c.nonNil[t.id] = true // such as a generator's cancel function
		}
		return
	}
	pt, ok := types.Unalias(ty).Underlying().(*types.Pointer)
	if !ok {
		return
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !ev.p.inRepo(n.Obj().Pkg().Path()) {
		return
	}
	if a.op == "idx" {
		// element of a list held by a library object
		if b := a.args[0]; b.op == "ini" && b.args[0].op == "fld" || strings.HasPrefix(b.op, "hav") {
			ev.c.nonNil[t.id] = true
		}
		return
	}
	if a.op == "fld" && !ev.maybeNil(a) {
		ev.c.nonNil[t.id] = true
	}
}

// maybeNil: reference fields that are nil in some legal state.
func (ev *Ev) maybeNil(a *Term) bool {
	for _, m := range ev.partial {
		if a.args[0] == m {
			return true
		}
	}
	o := a.args[0].typ
	if o == nil {
		return false
	}
	pt, ok := types.Unalias(o).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "proto" && strings.HasPrefix(n.Obj().Name(), "Snapshot") {
		return true
	}
	// the offline range of a navigator that never goes offline
	if n.Obj().Name() == "Navigator" {
		if u, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == a.aux {
					return strings.HasSuffix(u.Field(i).Type().String(), "types.Random")
				}
			}
		}
	}
	return false
}

// fieldsOfType lists the fields of struct type n whose type is written ts
// (package-name qualified).
func fieldsOfType(n *types.Named, ts string) []string {
	var out []string
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	q := func(p *types.Package) string { return p.Name() }
	for i := 0; i < u.NumFields(); i++ {
		if types.TypeString(types.Unalias(u.Field(i).Type()), q) == ts {
			out = append(out, u.Field(i).Name())
		}
	}
	return out
}

func oneField(n *types.Named, ts string) string {
	fs := fieldsOfType(n, ts)
	if len(fs) != 1 {
		panic(tooComplex{fmt.Sprintf("%s has %d fields of type %s", n.Obj().Name(), len(fs), ts)})
	}
	return fs[0]
}

// change is one location whose content differs between two states.
type change struct {
	path     string
	addr     *Term
	old, new *Term
}

// diffs lists the locations reachable from inputs whose contents may differ
// in st from their initial contents, assuming pc.
func (ev *Ev) diffs(st *State, pc *Term) []change {
	c := ev.c
	var out []change
	for k, v := range st.mem {
		if k.op == "lockst" || k.op == "havmark" || k.op == "events" {
			continue
		}
		if r := rootOf(k); r.op == "alloc" || r.op == "mkmap" || r.op == "clone" {
			continue
		}
		old := ev.def(&State{pc: c.True, mem: map[*Term]*Term{}, logs: map[string][]*entry{}}, k, ev.keyTyp[k])
		if old == v {
			continue
		}
		if ev.eqUnder(pc, old, v, ev.keyTyp[k]) {
			continue
		}
		out = append(out, change{path: k.String(), addr: k, old: old, new: v})
	}
	for key, log := range st.logs {
		if strings.HasPrefix(key, "lockst") {
			continue
		}
		for _, e := range log {
			if e.mark != nil {
				continue
			}
			ex := ev.shapeEx[key]
			if ex == nil {
				continue
			}
			if r := rootOf(ex); r.op == "alloc" || r.op == "mkmap" || r.op == "clone" {
				break
			}
			g := e.guard
			if e.dom != nil {
				g = c.And(g, e.dom)
			}
			if x := c.And(pc, g); x == c.False || !ev.sat(x, 2000) {
				continue
			}
			out = append(out, change{path: ex.String() + "[*]", addr: ex, new: e.val})
			break
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out
}

func (ch change) String() string {
	if ch.old == nil {
		return ch.path + " := " + clip(ch.new.String(), 120)
	}
	return ch.path + ": " + clip(ch.old.String(), 60) + " -> " + clip(ch.new.String(), 120)
}

func showChanges(cs []change) string {
	var s []string
	for i, ch := range cs {
		if i == 4 {
			s = append(s, fmt.Sprintf("and %d more", len(cs)-4))
			break
		}
		s = append(s, ch.String())
	}
	return strings.Join(s, "; ")
}

// eqUnder: a and b are equal whenever pc holds.
func (ev *Ev) eqUnder(pc, a, b *Term, ty types.Type) bool {
	c := ev.c
	if a == b {
		return true
	}
	a, b = c.Restrict(a, pc), c.Restrict(b, pc)
	if a == b {
		return true
	}
	var e *Term
	switch {
	case ty != nil && isNumeric(ty):
		e = c.EqNum(a, b)
	case ty != nil && isBool(ty):
		e = c.Ite(a, b, c.Not(b))
	default:
		e = c.EqAny(a, b)
	}
	return ev.entails(pc, e)
}

// tryResult finds the outcome symbol of a TryLock evaluated in st.
func findFresh(ts []*Term, prefix string) *Term {
	seen := map[int]bool{}
	var found *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || found != nil || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "fresh" && strings.HasPrefix(t.aux, prefix) {
			found = t
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return found
}

// calls records calls of selected functions with arguments and conditions.
type callRec struct {
	fn    *ssa.Function
	args  []*Term
	pc    *Term
	where string
}

func c2ptr(p *Prog, rel, name string) types.Type {
	return types.NewPointer(mustType(p, rel, name))
}

func fieldName(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return t.Field(fa.Field).Name()
}

// counterField is the Device field that sync/atomic is applied to below f.
func counterField(p *Prog, f *ssa.Function) string {
	dev := mustType(p, "", "Device")
	for _, g := range p.Funcs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isPtrType(fa.X.Type(), dev) {
					continue
				}
				for _, u := range *fa.Referrers() {
					if call, ok := u.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Pkg != nil && call.Call.StaticCallee().Pkg.Pkg.Path() == "sync/atomic" {
						return fieldName(fa)
					}
				}
			}
		}
	}
	return ""
}

type boundSym struct {
	t  *Term
	in *Term // lo <= t < hi
}

// bound is an arbitrary integer in [lo, hi).
func (ev *Ev) bound(name string, lo, hi *Term) boundSym {
	t := ev.sym(name, tInt)
	c := ev.c
	if lo.isConstNum() && lo.ratVal().Sign() >= 0 {
		c.nonNeg[t.id] = true
	}
	return boundSym{t, c.And(c.Le(lo, t), c.Lt(t, hi))}
}

// pkgConst is the numeric value of a package-level constant.
func (ev *Ev) pkgConst(rel, name string) *Term {
	pk := ev.p.pkg(rel)
	if pk == nil {
		panic(tooComplex{"no package " + rel})
	}
	k, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(tooComplex{"no constant " + name})
	}
	r, _ := new(big.Rat).SetString(k.Val().ExactString())
	return ev.c.numRat(r, r.IsInt())
}
