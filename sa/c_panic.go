package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// N01, S03: no operation can panic.

func init() {
	register("N01", "abstract interpretation with class invariants (gated SSA value numbering)", "Every exported function and method is evaluated, callees included, on an arbitrary object and arbitrary arguments; every index, slice bound, dereference, type assertion, map write, make and integer division on the way must be proved in range, non-nil or well-typed under the path condition. The class invariants used (references that constructors set, elements of lists, an offline range for navigators that go offline, package variables set during initialisation) are proved to be kept by every operation.", checkN01)
	register("S03", "abstract interpretation with class invariants (gated SSA value numbering)", "Every exported function that decodes bytes, or restores an object from a message, is evaluated on arbitrary bytes, decoded to arbitrary messages, documents and collections (any sub-message, element, attribute or geometry absent or of another kind); the same obligations as in N01 must hold on every path.", checkS03)
}

// panics records, from now on, the operations that may panic.
type panics struct {
	ev   *Ev
	pre  *Term
	n    int
	open []string
	seen map[string]bool
	// lists in fields that loops change: every list stored there is full
	relied map[string]bool
	broken map[string]bool
	later  []pending
	skip   string // field of a navigator that says it never goes offline
}

func watchPanics(ev *Ev, pre *Term) *panics {
	w := &panics{ev: ev, pre: pre, seen: map[string]bool{}, broken: map[string]bool{}}
	c := ev.c
	ev.onOblig = func(fr *Frame, st *State, kind string, cond *Term, what *Term, pos token.Pos) {
		if kind == "fdiv" {
			return
		}
		w.n++
		if os.Getenv("GPSA_FREE") != "" && (len(st.pc.free()) > 0 || len(cond.free()) > 0) {
			fmt.Fprintln(os.Stderr, "FREE", ev.p.where(fr, pos), st.pc.free(), cond.free())
		}
		if cond == c.True {
			return
		}
		pc := c.And(ev.fullPC(st), w.pre)
		x := c.Restrict(cond, pc)
		w.relied = map[string]bool{}
		defer func() { w.relied = nil }()
		if x == c.True || !ev.sat(pc, 4000) {
			return
		}
		pc = c.And(pc, w.facts(c.And(pc, c.Not(x))))
		pc = c.And(pc, w.instances(pc, x))
		where := ev.p.where(fr, pos)
		if x = c.Restrict(x, pc); pc == c.False || x == c.True || ev.entails(pc, x) {
			if len(w.relied) > 0 {
				w.later = append(w.later, pending{w.relied, kind, fmt.Sprintf("%s at %s: a list may have absent elements", panicText[kind], where)})
			}
			return
		}
		if os.Getenv("GPSA_HAZ") != "" {
			fmt.Fprintln(os.Stderr, "HAZ", kind, where, x, "\n    UNDER", pc)
		}
		if k := kind + where; !w.seen[k] {
			w.seen[k] = true
			w.open = append(w.open, fmt.Sprintf("%s at %s: %s", panicText[kind], where, clip(x.String(), 160)))
		}
	}
	ev.onStore = func(fr *Frame, st *State, p, v *Term, ty types.Type) { w.stores(st, p, v, ty) }
	return w
}

type pending struct {
	on   map[string]bool
	kind string
	text string
}

func spot(field string, ty types.Type) string {
	if ty == nil {
		return field
	}
	return field + " " + ty.String()
}

// stores checks that lists kept in fields have no absent elements.
func (w *panics) stores(st *State, p, v *Term, ty types.Type) {
	ev, c := w.ev, w.ev.c
	keep := w.relied
	defer func() { w.relied = keep }()
	w.relied = nil
	switch u := types.Unalias(ty).Underlying().(type) {
	case *types.Slice:
		if p.op != "fld" || w.libRef(u.Elem()) == nil {
			return
		}
		pc := c.And(ev.fullPC(st), w.pre)
		ev.leaves(ev.simp(v, pc), pc, func(s, q *Term) {
			if !w.full(s, u.Elem(), q) && !w.filled(st, s, u.Elem(), q) {
				w.broken[spot(p.aux, ty)] = true
			}
		})
	case *types.Pointer:
		if p.op == "idx" && w.libRef(ty) != nil {
			pc := c.And(ev.fullPC(st), w.pre)
			x := c.Not(c.EqAny(v, c.Nil))
			if pc = c.And(pc, w.facts(x)); !ev.entails(pc, x) {
				w.broken["[]"+ty.String()] = true
			}
		}
	}
}

// filled: the new list s has been filled.
func (w *panics) filled(st *State, s *Term, ty types.Type, q *Term) bool {
	ev, c := w.ev, w.ev.c
	if s.op != "mkslice" {
		return false
	}
	k := ev.kap(fmt.Sprint("elem of ", s.id))
	in := c.And(q, inRangeOf(c, k, c.Len(s)))
	x := c.Not(c.EqAny(ev.Load(st, c.Idx(s, k), ty), c.Nil))
	in = c.And(in, w.facts(x))
	return ev.entails(in, x)
}

// settle reports the operations that relied on lists being full that are not.
func (w *panics) settle() {
	for _, l := range w.later {
		for k := range l.on {
			el := k[strings.Index(k, " ")+1:]
			if w.broken[k] || w.broken[el] {
				if !w.seen[l.kind+l.text] {
					w.seen[l.kind+l.text] = true
					w.open = append(w.open, l.text)
				}
				break
			}
		}
	}
	w.later = nil
}

var panicText = map[string]string{"nil": "nil dereference", "index": "index out of range", "slice": "slice bounds out of range", "typeassert": "failed type assertion", "nilmap": "write to a nil map", "makelen": "negative length", "divzero": "division by zero", "panic": "panic"}

// facts are the invariants about the objects that t talks about.
func (w *panics) facts(t *Term) *Term {
	ev, c := w.ev, w.ev.c
	out := c.True
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t.id] {
			return
		}
		seen[t.id] = true
		switch {
		case t.op == "ini" && t.args[0].op == "fld" && offlineRange(t.args[0]):
			skip := ev.iniT(c.Fld(t.args[0].args[0], w.skipName()), tBool)
			out = c.And(out, c.Or(c.atomB(skip), c.Not(c.Eq(t, c.Nil))))
		case t.op == "ini" && t.args[0].op == "idx" && isRef(t.typ) && w.listTerm(t.args[0].args[0]):
			if w.full(t.args[0].args[0], t.typ, c.True) {
				out = c.And(out, c.Not(c.Eq(t, c.Nil)))
			}
		case t.op == "first" && len(t.args) == 2 && t.args[0].op == "lam":
			// the first place found is one of those looked for
			some, k := c.First(t.args[0], t.args[1])
			if k == t {
				out = c.And(out, c.Or(c.Not(some), c.Inst(t.args[0], t)))
			}
		case t.op == "call" && strings.HasSuffix(t.aux, "#0") && len(t.args) > 0:
			// a library function returns a result or an error
			err := ev.rawT("call", strings.TrimSuffix(t.aux, "0")+"1", tError, t.args...)
			if isRef(t.typ) {
				out = c.And(out, c.Or(c.Not(c.Eq(err, c.Nil)), c.Not(c.Eq(t, c.Nil))))
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.fs {
				rec(f)
			}
		}
	}
	rec(t)
	return out
}

// instances applies what pc says about all elements of a list to those that x
// is about.
func (w *panics) instances(pc, x *Term) *Term {
	c := w.ev.c
	// the lists that each index is used with
	idx := map[int]*Term{}
	uses := map[[2]int]bool{}
	look := func(t *Term, only string) {
		walkTerms(t, func(t *Term) {
			if t.op == "idx" && (only == "" && !t.args[1].isConstNum() || t.args[1].op == "kappa") {
				idx[t.args[1].id] = t.args[1]
				uses[[2]int{t.args[1].id, t.args[0].id}] = true
			}
		})
	}
	look(x, "")
	look(pc, "kappa")
	out := c.True
	done := map[[2]int]bool{}
	from := pc
	for round := 0; round < 2; round++ {
		next := c.True
		keys := sortedIDs(idx)
		walkTerms(from, func(t *Term) {
			if t.op != "exists" || len(t.args) != 2 || t.args[0].op != "lam" || len(done) > 60 || len(t.free()) > 0 {
				return
			}
			about := map[int]bool{}
			walkTerms(t.args[0].args[1], func(y *Term) {
				if y.op == "idx" && y.args[1] == t.args[0].args[0] {
					about[y.args[0].id] = true
				}
			})
			for _, k := range keys {
				hit := false
				for l := range about {
					hit = hit || uses[[2]int{k, l}]
				}
				if i := idx[k]; hit && !done[[2]int{t.id, k}] {
					done[[2]int{t.id, k}] = true
					f := c.Or(c.atomB(t), c.Not(inRangeOf(c, i, t.args[1])), c.Not(c.Inst(t.args[0], i)))
					next = c.And(next, f)
				}
			}
		})
		out = c.And(out, next)
		look(next, "kappa")
		from = next
	}
	return out
}

func walkTerms(t *Term, f func(t *Term)) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t.id] {
			return
		}
		seen[t.id] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, x := range m.fs {
				rec(x)
			}
		}
	}
	rec(t)
}

// free are the bound variables that occur in t outside their binder.
func (t *Term) free() map[int]bool {
	out := map[int]bool{}
	var rec func(t *Term, bound map[int]bool)
	rec = func(t *Term, bound map[int]bool) {
		switch t.op {
		case "bv":
			if !bound[t.id] {
				out[t.id] = true
			}
			return
		case "lam":
			b := map[int]bool{t.args[0].id: true}
			for k := range bound {
				b[k] = true
			}
			rec(t.args[1], b)
			return
		}
		for _, a := range t.args {
			rec(a, bound)
		}
		for _, m := range t.monos {
			for _, x := range m.fs {
				rec(x, bound)
			}
		}
	}
	if t.mentionsBound() {
		rec(t, map[int]bool{})
	}
	return out
}

// mentionsBound: does t contain a variable of a list or search?
func (t *Term) mentionsBound() bool {
	if t.bv != 0 {
		return t.bv == 1
	}
	has := t.op == "bv"
	for _, a := range t.args {
		has = has || a.mentionsBound()
	}
	for _, m := range t.monos {
		for _, x := range m.fs {
			has = has || x.mentionsBound()
		}
	}
	t.bv = 2
	if has {
		t.bv = 1
	}
	return has
}

func sortedIDs(m map[int]*Term) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// full: every element of the list s is non-nil.
func (w *panics) full(s *Term, ty types.Type, under *Term) bool {
	ev, c := w.ev, w.ev.c
	some := func(pc, v *Term) bool {
		x := c.Not(c.EqAny(v, c.Nil))
		return x == c.True || ev.entails(c.And(pc, under), x)
	}
	k := ev.kap(fmt.Sprint("elem of ", s.id))
	switch s.op {
	case "nil":
		return true
	case "mkslice":
		return s.args[0] == c.Int(0)
	case "append":
		return w.full(s.args[0], ty, under) && some(c.True, s.args[1])
	case "appmap":
		in := inRangeOf(c, k, s.args[1])
		return w.full(s.args[0], ty, under) && some(in, c.Inst(s.args[2], k))
	case "appfilter":
		in := c.And(inRangeOf(c, k, s.args[1]), c.Inst(s.args[2], k))
		return w.full(s.args[0], ty, under) && some(in, c.Inst(s.args[3], k))
	case "appslice":
		return w.full(s.args[0], ty, under) && w.full(s.args[1], ty, under)
	case "sub":
		return w.full(s.args[0], ty, under)
	case "ite":
		// the value before the loop, or a later one
		return w.full(s.args[1], ty, under) && w.full(s.args[2], ty, under)
	case "havf":
		k := ev.havKey[s.aux]
		if k == nil || k.op != "fld" {
			return false
		}
		if w.relied != nil {
			w.relied[spot(k.aux, s.typ)] = true
		}
		return true
	case "ini":
		return some(c.True, ev.iniT(c.Idx(s, k), ty))
	}
	return false
}

func (w *panics) listTerm(s *Term) bool {
	return functional(s) || s.op == "appfilter" || s.op == "havf" && w.ev.havKey[s.aux] != nil || s.op == "sub" && w.listTerm(s.args[0])
}

func isRef(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := types.Unalias(t).Underlying().(*types.Pointer)
	return ok
}

// offlineRange: a is the offline range of a navigator.
func offlineRange(a *Term) bool {
	o := a.args[0].typ
	if o == nil {
		return false
	}
	pt, ok := types.Unalias(o).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Name() != "Navigator" || n.Obj().Pkg().Name() != "navigator" {
		return false
	}
	for _, f := range fieldsOfType(n, "*types.Random") {
		if f == a.aux {
			return true
		}
	}
	return false
}

// skipField is the field of a navigator that its snapshot reports as SkipOffline.
func skipField(p *Prog) string {
	s := newSubject(p, "navigator", "Navigator")
	s.self = s.ev.ptrSym("n", s.n)
	t := s.skips(s.ev.NewState())
	for t.op == "ite" {
		t = t.args[0]
	}
	if t.op != "ini" || t.args[0].op != "fld" {
		panic(tooComplex{"no field says that a navigator skips offline mode: " + clip(t.String(), 80)})
	}
	return t.args[0].aux
}

// handedIn assumes what callers owe: callbacks, messages to fill or read, and
// the objects in a list handed to a package function exist.
func (ev *Ev) handedIn(f *ssa.Function, args []*Term) {
	for i, q := range f.Params {
		switch u := types.Unalias(q.Type()).Underlying().(type) {
		case *types.Signature:
			ev.c.nonNil[args[i].id] = true
		case *types.Interface:
			ev.c.nonNil[args[i].id] = true
		case *types.Pointer:
			n, ok := types.Unalias(u.Elem()).(*types.Named)
			if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "proto" && f.Signature.Recv() != nil && !strings.HasPrefix(n.Obj().Name(), "Snapshot") {
				ev.c.nonNil[args[i].id] = true
				ev.partial = append(ev.partial, args[i])
			}
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Signature); ok || f.Signature.Recv() == nil && !(f.Signature.Variadic() && i == len(f.Params)-1) && isRef(u.Elem()) {
				list := args[i]
				old := ev.iniHook
				ev.iniHook = func(t, a *Term, ty types.Type) {
					if a.op == "idx" && a.args[0] == list {
						ev.c.nonNil[t.id] = true
					}
					old(t, a, ty)
				}
			}
		}
	}
}

// takesBytes: f decodes a byte string.
func takesBytes(f *ssa.Function) bool {
	for _, q := range f.Params {
		if s, ok := types.Unalias(q.Type()).Underlying().(*types.Slice); ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte]) {
			return true
		}
	}
	return false
}

// restores: f fills an object from a snapshot message.
func restores(f *ssa.Function) bool {
	for _, q := range f.Params {
		pt, ok := types.Unalias(q.Type()).(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := types.Unalias(pt.Elem()).(*types.Named)
		if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "proto" && strings.HasPrefix(n.Obj().Name(), "Snapshot") {
			return true
		}
	}
	return false
}

func checkN01(p *Prog, r *Report) {
	r.Rule("total", 100, "the operation cannot panic")
	r.Rule("invariant", 30, "the references and lists the library relies on stay as they should be")
	r.Rule("globals", 2, "package-level variables that are dereferenced are set before use")
	for _, rel := range queryPkgs {
		if p.pkg(rel) == nil {
			continue
		}
		for _, f := range exportedOf(p, rel) {
			f := f
			if takesBytes(f) {
				continue
			}
			r.guard("total", p.at(f), func() { noPanic(p, r, f) })
		}
	}
}

func checkS03(p *Prog, r *Report) {
	r.Rule("total", 8, "decoding cannot panic")
	r.Rule("invariant", 8, "what decoding returns is complete: no reference the library relies on is missing")
	r.Rule("globals", 0, "package-level variables that are dereferenced are set before use")
	for _, rel := range queryPkgs {
		if p.pkg(rel) == nil {
			continue
		}
		for _, f := range exportedOf(p, rel) {
			f := f
			if !takesBytes(f) && !restores(f) {
				continue
			}
			r.guard("total", p.at(f), func() { noPanic(p, r, f) })
		}
	}
}

func noPanic(p *Prog, r *Report, f *ssa.Function) {
	if only := os.Getenv("GPSA_ONLY"); only != "" && apiName(f) != only {
		return
	}
	ev := session(p)
	c := ev.c
	globals := map[string]bool{}
	old := ev.iniHook
	ev.iniHook = func(t, a *Term, ty types.Type) {
		if a.op == "global" {
			if ok, known := p.setOnce(a.aux); known && ok {
				c.nonNil[t.id] = true
				globals[a.aux] = true
			}
		}
		old(t, a, ty)
	}
	args := ev.argSyms(f)
	ev.handedIn(f, args)
	w := watchPanics(ev, c.True)
	st, vals := ev.Call(f, args, nil, ev.NewState(), nil, "")
	ev.onOblig, ev.onStore = nil, nil
	w.settle()
	r.use(ev)
	var gs []string
	for g := range globals {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		r.Ob("globals", true, g, "set during initialisation and never again")
	}
	if st != nil {
		w.kept(r, f, st, vals)
	}
	r.Ob("total", len(w.open) == 0, p.at(f), "%s may panic: %s", apiName(f), strings.Join(w.open, "; "))
}

// libRef: ty is a reference that the library expects to be set.
func (w *panics) libRef(ty types.Type) *types.Named {
	pt, ok := types.Unalias(ty).Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !w.ev.p.inRepo(n.Obj().Pkg().Path()) || n.Obj().Pkg().Name() == "proto" {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

// kept: the objects that f changed or made satisfy the class invariants.
func (w *panics) kept(r *Report, f *ssa.Function, st *State, vals []*Term) {
	ev, c := w.ev, w.ev.c
	at := ev.p.at(f)
	w.relied = map[string]bool{}
	defer func() { w.relied = nil }()
	done := map[string]bool{}
	n := 0
	bad := ""
	fail := func(path, what string) {
		if bad == "" {
			bad = path + " " + what
		}
	}
	var value func(v *Term, ty types.Type, pc *Term, path string, may bool)
	var object func(l *Term, named *types.Named, pc *Term, path string)
	fields := func(l *Term, named *types.Named, pc *Term, path string, only string) {
		u := named.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			fl := u.Field(i)
			if only != "" && fl.Name() != only {
				continue
			}
			a := c.Fld(l, fl.Name())
			if a.args[0].typ == nil {
				a.args[0].typ = types.NewPointer(named)
			}
			switch x := types.Unalias(fl.Type()).Underlying().(type) {
			case *types.Pointer:
				if offlineRange(a) {
					n++
					skip, rng := ev.Load(st, c.Fld(l, w.skipName()), tBool), ev.Load(st, a, fl.Type())
					g := c.Or(c.atomB(skip), c.Not(c.EqAny(rng, c.Nil)))
					if q := c.And(pc, w.facts(c.And(pc, g))); !ev.entails(q, g) {
						fail(path+"."+fl.Name(), "may be absent although the navigator goes offline")
					}
					continue
				}
				if w.libRef(fl.Type()) == nil || ev.maybeNil(a) {
					continue
				}
				value(ev.simp(ev.Load(st, a, fl.Type()), pc), fl.Type(), pc, path+"."+fl.Name(), false)
			case *types.Signature:
				if _, named := types.Unalias(fl.Type()).(*types.Named); named {
					value(ev.simp(ev.Load(st, a, fl.Type()), pc), fl.Type(), pc, path+"."+fl.Name(), false)
				}
			case *types.Slice:
				if w.libRef(x.Elem()) != nil {
					value(ev.simp(ev.Load(st, a, fl.Type()), pc), fl.Type(), pc, path+"."+fl.Name(), false)
				}
			}
		}
	}
	object = func(l *Term, named *types.Named, pc *Term, path string) {
		if k := fmt.Sprint(l.id, " ", pc.id); !done[k] {
			done[k] = true
			fields(l, named, pc, path, "")
		}
	}
	value = func(v *Term, ty types.Type, pc *Term, path string, may bool) {
		if sl, ok := types.Unalias(ty).Underlying().(*types.Slice); ok {
			if w.libRef(sl.Elem()) == nil {
				return
			}
			ev.leaves(v, pc, func(s, q *Term) {
				if s == c.Nil || s.op == "ini" || s.op == "sym" || !ev.sat(q, 2000) {
					return
				}
				k := ev.kap("elem of " + path)
				in := c.And(q, inRangeOf(c, k, c.Len(s)))
				if !ev.sat(in, 2000) {
					return
				}
				value(ev.simp(ev.Load(st, c.Idx(s, k), sl.Elem()), in), sl.Elem(), in, path+"[i]", false)
			})
			return
		}
		n++
		ev.leaves(v, pc, func(l, q *Term) {
			q = c.And(q, w.facts(l), w.facts(q))
			if !ev.sat(q, 2000) {
				return
			}
			if l.op == "alloc" {
				if named := w.libRef(ty); named != nil {
					object(l, named, q, path)
				}
				return
			}
			if may || l.op == "sym" || c.nonNil[l.id] {
				return
			}
			if _, fn := types.Unalias(ty).Underlying().(*types.Signature); fn && (l.op == "fresh" || l.op == "call") {
				return // a function made by a library
			}
			x := c.Not(c.EqAny(l, c.Nil))
			if q = c.And(q, w.instances(q, x)); !ev.entails(q, x) {
				if os.Getenv("GPSA_HAZ") != "" {
					fmt.Fprintln(os.Stderr, "KEPT", path, x, "\n    UNDER", q)
				}
				fail(path, "may be absent")
			}
		})
	}
	pc := st.pc
	res := f.Signature.Results()
	if k := res.Len() - 1; k >= 0 && types.Identical(res.At(k).Type(), tError) {
		pc = c.And(pc, c.EqAny(vals[k], c.Nil))
	}
	for i, v := range vals {
		value(v, res.At(i).Type(), pc, "result", true)
	}
	// changed fields of existing objects
	for _, ch := range ev.diffs(st, st.pc) {
		a := ch.addr
		for a.op == "idx" {
			a = a.args[0]
		}
		if ch.addr.op == "fld" && inputLoc(ch.addr) {
			if pt, ok := typeOfTerm(ch.addr.args[0]).(*types.Pointer); ok {
				if named := w.libRef(pt); named != nil {
					only := ch.addr.aux
					if offlineRange(ch.addr) || only == w.skip {
						for _, o := range fieldsOfType(named, "*types.Random") {
							fields(ch.addr.args[0], named, st.pc, named.Obj().Name(), o)
						}
					}
					fields(ch.addr.args[0], named, st.pc, named.Obj().Name(), only)
				}
			}
		}
	}
	// elements stored into existing lists
	for key, log := range st.logs {
		ex := ev.shapeEx[key]
		if ex == nil || ex.op != "idx" || !inputLoc(ex) {
			continue
		}
		for _, e := range log {
			if e.mark != nil || e.val == nil || !isRef(e.val.typ) || w.libRef(e.val.typ) == nil {
				continue
			}
			g := e.guard
			if e.dom != nil {
				g = c.And(g, e.dom)
			}
			value(e.val, e.val.typ, c.And(st.pc, g), "list element", false)
		}
	}
	w.later = []pending{{w.relied, "", "a list may have absent elements"}}
	if was := len(w.open); bad == "" {
		if w.settle(); len(w.open) > was {
			bad = w.open[was]
			w.open = w.open[:was]
		}
	}
	if n > 0 {
		r.Ob("invariant", bad == "", at, "after %s, %s", apiName(f), bad)
	}
}

func typeOfTerm(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	return types.Unalias(t.typ)
}

func (w *panics) skipName() string {
	if w.skip == "" {
		w.skip = skipField(w.ev.p)
	}
	return w.skip
}

// setOnce: the package variable is assigned during package initialisation
// only, and never with nil.
func (p *Prog) setOnce(name string) (ok, known bool) {
	if r, is := p.once[name]; is {
		return r[0], r[1]
	}
	defer func() {
		if p.once == nil {
			p.once = map[string][2]bool{}
		}
		p.once[name] = [2]bool{ok, known}
	}()
	ok = true
	fns := p.Funcs()
	for _, pk := range p.prog.AllPackages() {
		if f := pk.Func("init"); f != nil && p.inRepo(pk.Pkg.Path()) {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, is := in.(*ssa.Store)
				if !is {
					continue
				}
				g, is := s.Addr.(*ssa.Global)
				if !is || g.Pkg.Pkg.Path()+"."+g.Name() != name {
					continue
				}
				known = true
				if !isInit(f) || !neverNil(s.Val, 0) {
					ok = false
				}
			}
		}
	}
	return ok, known
}

func isInit(f *ssa.Function) bool {
	return f.Signature.Recv() == nil && f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

// neverNil: the value is made by an allocation on every path.
func neverNil(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeChan:
		return true
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeType:
		return neverNil(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !neverNil(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		if f.Blocks == nil {
			// a library constructor
			return strings.HasPrefix(f.Name(), "New")
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !neverNil(ret.Results[0], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}
