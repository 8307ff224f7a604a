package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S01: what a snapshot takes from an object, restoring it gives back.

func init() {
	register("S01", "value-flow analysis (symbolic composition of snapshot and restore in gated SSA form)", "Every method that saves an object into a snapshot message is composed with every function that restores such an object from it, for an arbitrary object and an arbitrary previous content of the target; all parts of the two objects are compared as values, element by element for lists.", checkS01)
}

// pair is a way to save an object and a way to get it back.
type pair struct {
	t, m       *types.Named
	save, load *ssa.Function
	kind       string // method, func, new
}

func protoMsg(p *Prog, t types.Type) *types.Named {
	ptr, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(ptr.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/proto") || !p.inRepo(n.Obj().Pkg().Path()) {
		return nil
	}
	return n
}

func namedOf(t types.Type) *types.Named {
	if ptr, ok := types.Unalias(t).(*types.Pointer); ok {
		t = ptr.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func snapshotPairs(p *Prog) []pair {
	var saves []pair
	for _, f := range p.Funcs() {
		sig := f.Signature
		if sig.Recv() == nil || f.Object() == nil || !f.Object().Exported() || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		t := namedOf(sig.Recv().Type())
		m := protoMsg(p, sig.Results().At(0).Type())
		if t == nil || m == nil || !t.Obj().Exported() || t.Obj().Pkg() == m.Obj().Pkg() {
			continue
		}
		saves = append(saves, pair{t: t, m: m, save: f})
	}
	var out []pair
	for _, s := range saves {
		for _, f := range p.Funcs() {
			if f.Object() == nil || !f.Object().Exported() || f.Pkg == nil || f.Parent() != nil {
				continue
			}
			var ps []types.Type
			for _, a := range f.Params {
				ps = append(ps, a.Type())
			}
			if len(ps) == 0 || protoMsg(p, ps[len(ps)-1]) != s.m {
				continue
			}
			q := s
			q.load = f
			res := f.Signature.Results()
			switch {
			case len(ps) == 2 && types.Identical(ps[0], types.NewPointer(s.t)):
				q.kind = "into"
			case len(ps) == 1 && res.Len() >= 1 && namedOf(res.At(0).Type()) == s.t:
				q.kind = "new"
			default:
				continue
			}
			out = append(out, q)
		}
	}
	return append(append(out, binaryPairs(p)...), codecPairs(p)...)
}

// binaryPairs are methods that turn an object into bytes and back.
func binaryPairs(p *Prog) []pair {
	raw := types.NewSlice(types.Typ[types.Byte])
	var out []pair
	for _, f := range p.Funcs() {
		sig := f.Signature
		if sig.Recv() == nil || f.Object() == nil || !f.Object().Exported() || sig.Params().Len() != 0 || sig.Results().Len() != 2 ||
			!types.Identical(sig.Results().At(0).Type(), raw) || !types.Identical(sig.Results().At(1).Type(), tError) {
			continue
		}
		for _, g := range p.Funcs() {
			sg := g.Signature
			if sg.Recv() == nil || g.Object() == nil || !g.Object().Exported() || !types.Identical(sg.Recv().Type(), sig.Recv().Type()) || sg.Params().Len() != 1 || !types.Identical(sg.Params().At(0).Type(), raw) ||
				sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), tError) || isMsg(sig.Recv().Type()) {
				continue
			}
			out = append(out, pair{t: namedOf(sig.Recv().Type()), save: f, load: g, kind: "into"})
		}
	}
	return out
}

// codecPairs are package functions EncodeX and DecodeX for a single object.
func codecPairs(p *Prog) []pair {
	raw := types.NewSlice(types.Typ[types.Byte])
	var out []pair
	for _, f := range exportedOf(p, "") {
		sig := f.Signature
		name, ok := strings.CutPrefix(f.Name(), "Encode")
		if !ok || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 || !types.Identical(sig.Results().At(0).Type(), raw) {
			continue
		}
		t := namedOf(sig.Params().At(0).Type())
		g := p.pkg("").Func("Decode" + name)
		if t == nil || g == nil || g.Signature.Params().Len() != 1 || g.Signature.Results().Len() != 2 || !types.Identical(g.Signature.Results().At(0).Type(), sig.Params().At(0).Type()) {
			continue
		}
		out = append(out, pair{t: t, save: f, load: g, kind: "new"})
	}
	return out
}

func checkS01(p *Prog, r *Report) {
	r.Rule("same", 20, "a restored object has the parts of the saved one, whatever the target held before")
	r.Rule("seen", 20, "a restored object answers as the saved one did, and has the same snapshot")
	r.Rule("accepted", 3, "an object's own snapshot is never refused")
	for _, q := range snapshotPairs(p) {
		at := p.at(q.load)
		r.guard("same", at, func() { restorePair(p, r, q, at) })
	}
}

// restorePair saves an object, restores it and compares.
func restorePair(p *Prog, r *Report, q pair, at string) {
	ev := openSession(p)
	c := ev.c
	st := ev.NewState()
	var x, val *Term
	if _, ok := q.save.Params[0].Type().(*types.Pointer); ok {
		x = ev.ptrSym("x", q.t)
		val = x
	} else {
		val = ev.sym("x", q.t)
	}
	cmp := &compare{ev: ev, p: p, r: r, at: at, rule: "same", pre: c.True}
	cmp.build(st, q.t, x, 0)
	cmp.a = st.clone()
	saved, v := ev.Call(q.save, []*Term{val}, nil, st, nil, "")
	pc := c.And(cmp.pre, cmp.fine(q.save, saved, v, "accepted"))
	var got *Term
	args := []*Term{v[0]}
	if q.kind == "into" {
		got = ev.ptrSym("y", q.t)
		args = []*Term{got, v[0]}
	}
	st2, v2 := ev.Call(q.load, args, nil, saved.clone(), nil, "load")
	cmp.b = st2
	pc = c.And(pc, cmp.fine(q.load, st2, v2, "accepted"))
	if q.kind == "new" {
		got = v2[0]
		if _, ok := q.load.Signature.Results().At(0).Type().(*types.Pointer); !ok {
			if x != nil {
				val = ev.Load(cmp.a, x, q.t)
			}
			cmp.values(q.t.Obj().Name(), q.t, val, got, pc, 0)
			r.use(ev)
			return
		}
	}
	cmp.objects(q.t.Obj().Name(), q.t, x, got, pc, 0)
	// and looks the same
	for _, f := range exportedOf(p, strings.TrimPrefix(strings.TrimPrefix(q.t.Obj().Pkg().Path(), p.module), "/")) {
		res := f.Signature.Results()
		if q.kind == "new" || recvOf(f) != q.t || len(f.Params) != 1 || res.Len() != 1 || apiName(f) == "Device.Status" {
			continue
		}
		if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() == types.UnsafePointer {
			continue
		}
		if modifiers[apiName(f)] {
			continue
		}
		a, b := ev.observe(f, cmp.a, x), ev.observe(f, cmp.b, got)
		cmp.rule = "seen"
		cmp.values(f.Name()+"()", res.At(0).Type(), a[0], b[0], pc, 0)
	}
	if m := q.m; m != nil {
		again, w := ev.Call(q.save, []*Term{got}, nil, st2.clone(), nil, "again")
		cmp.a, cmp.b, cmp.rule = saved, again, "seen"
		cmp.values("snapshot", types.NewPointer(m), v[0], w[0], c.And(pc, again.pc), 0)
	}
	r.use(ev)
}

// fine is the condition under which f, having returned v, reports no error. It
// has to report none, whatever is saved, unless a library says that something
// cannot be encoded.
func (k *compare) fine(f *ssa.Function, st *State, v []*Term, rule string) *Term {
	ev, c := k.ev, k.ev.c
	sig := f.Signature.Results()
	n := sig.Len() - 1
	if n < 0 || !types.Identical(sig.At(n).Type(), tError) {
		return st.pc
	}
	pc := c.And(st.pc, ev.granted(k.p, c.And(st.pc, c.Not(c.EqAny(v[n], c.Nil)))))
	bad := c.And(pc, c.Not(c.EqAny(v[n], c.Nil)))
	walkTerms(bad, func(t *Term) {
		if t.op == "call" && (t.aux == "jsonerr" || t.aux == "protoencerr") && len(t.free()) == 0 {
			pc = c.And(pc, c.EqAny(t, c.Nil))
		}
		// only a message without content takes no bytes
		if t.op == "protoenc" {
			if m, ty := ptrOf(t.args[0]); m != nil {
				for _, f := range exportedFields(ty) {
					val := ev.Load(st, c.Fld(m, f.Name()), f.Type())
					some := c.False
					switch f.Type().Underlying().(type) {
					case *types.Pointer:
						some = c.Not(c.EqAny(val, c.Nil))
					case *types.Slice:
						some = c.Lt(num(ev, 0), c.Len(val))
					}
					pc = c.And(pc, c.Or(c.Not(some), c.Lt(num(ev, 0), c.Len(t))))
				}
			}
		}
	})
	e := c.Restrict(v[n], pc)
	k.r.Ob(rule, !ev.feasible(c.And(pc, c.Not(c.EqAny(e, c.Nil)))), k.at, "refused: %s", clip(e.String(), 300))
	return c.And(pc, c.EqAny(v[n], c.Nil))
}

// compare tells whether two objects, each in its own state, are the same.
type compare struct {
	ev   *Ev
	p    *Prog
	r    *Report
	at   string
	a, b *State
	n    int
	pre  *Term
	rule string
}

// build gives the object x, where it holds a range or a random source, one
// that the constructor of that type makes.
func (k *compare) build(st *State, t types.Type, x *Term, depth int) {
	ev, c := k.ev, k.ev.c
	u, ok := t.Underlying().(*types.Struct)
	if x == nil || !ok || depth > 3 {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		n := namedOf(f.Type())
		if n == nil || unshared(f.Type()) || n.Obj().Pkg() == nil || !k.p.inRepo(n.Obj().Pkg().Path()) {
			continue
		}
		if _, ok := f.Type().(*types.Pointer); !ok {
			continue
		}
		at := c.Fld(x, f.Name())
		if n.Obj().Name() == "Random" {
			skip := ev.Load(st, c.Fld(x, skipField(k.p)), tBool)
			mk := mustFunc(k.p, "types", "NewRandom")
			made, v := ev.Call(mk, ev.argSyms(mk), nil, st, nil, "made")
			*st = *made
			ev.Store(st, at, c.Ite(skip, c.Nil, v[0]), f.Type())
			s := &subject{ev, k.p, mustType(k.p, "navigator", "Navigator"), x}
			k.pre = c.And(k.pre, c.Or(c.Not(skip), c.EqNum(s.o(st, "OfflineDuration"), num(ev, 0))))
			continue
		}
		k.build(st, n, ev.Load(st, at, f.Type()), depth+1)
	}
}

// unshared are things that a snapshot does not carry: locks, channels, random
// sources, and messages that only repeat what the parts say.
func unshared(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return true
	case *types.Pointer:
		if isMsg(t) {
			return true
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic", "github.com/valyala/fastrand", "math/rand":
			return true
		}
	}
	return false
}

func isMsg(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/proto")
}

func (k *compare) objects(path string, t types.Type, x, y *Term, pc *Term, depth int) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		k.values(path, t, k.ev.Load(k.a, x, t), k.ev.Load(k.b, y, t), pc, depth)
		return
	}
	// of an object that goroutines share, the parts: the rest is its running
	// state, or repeats what the parts say
	shared := false
	for i := 0; i < u.NumFields(); i++ {
		n := namedOf(u.Field(i).Type())
		shared = shared || n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if isMsg(t) {
			if !f.Exported() {
				continue
			}
		} else if unshared(f.Type()) || shared && !part(f.Type()) {
			continue
		}
		px, py := k.ev.c.Fld(x, f.Name()), k.ev.c.Fld(y, f.Name())
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			k.objects(path+"."+f.Name(), f.Type(), px, py, pc, depth)
			continue
		}
		k.values(path+"."+f.Name(), f.Type(), k.ev.Load(k.a, px, f.Type()), k.ev.Load(k.b, py, f.Type()), pc, depth)
	}
}

func part(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Slice:
		return part(u.Elem())
	}
	return false
}

func (k *compare) values(path string, t types.Type, v, w *Term, pc *Term, depth int) {
	ev, c := k.ev, k.ev.c
	if _, ok := t.Underlying().(*types.Struct); !ok {
		pc = c.And(pc, ev.granted(k.p, w))
	}
	ob := func(ok bool, format string, args ...any) { k.r.Ob(k.rule, ok, k.at, path+": "+format, args...) }
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			k.values(path+"."+f.Name(), f.Type(), c.Field(v, f.Name()), c.Field(w, f.Name()), pc, depth)
		}
	case *types.Pointer:
		v, w = ev.simp(v, pc), ev.simp(w, pc)
		if v == w {
			ob(true, "the same object")
			return
		}
		here := c.And(pc, c.Not(c.EqAny(v, c.Nil)))
		if here == c.False {
			return
		}
		ob(ev.entails(here, c.Not(c.EqAny(w, c.Nil))), "present only before: %s", clip(w.String(), 200))
		k.objects(path, u.Elem(), v, w, here, depth+1)
	case *types.Slice:
		ln, lm := c.Len(v), c.Len(w)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			// an encoded empty value and none are the same
			pc = c.And(pc, c.Lt(num(ev, 0), ln))
		}
		ob(ev.eqUnder(pc, ln, lm, tInt), "%s elements instead of %s", clip(c.Restrict(lm, pc).String(), 200), clip(c.Restrict(ln, pc).String(), 100))
		k.n++
		i := ev.bound(fmt.Sprintf("i%d", k.n), num(ev, 0), ln)
		in := c.And(pc, i.in)
		e := ev.Load(k.b, c.Idx(w, i.t), u.Elem())
		in = c.And(in, ev.granted(k.p, e))
		k.values(path+"[i]", u.Elem(), ev.Load(k.a, c.Idx(v, i.t), u.Elem()), ev.simp(e, in), in, depth+1)
	case *types.Map:
		some := c.And(pc, c.Not(c.EqAny(v, c.Nil)))
		none := c.And(pc, c.EqAny(v, c.Nil))
		ob(ev.eqUnder(some, v, w, t), "%s instead of %s", clip(ev.simp(w, some).String(), 300), clip(ev.simp(v, some).String(), 150))
		ob(ev.eqUnder(none, ev.mapLen(k.b, ev.simp(w, none)), num(ev, 0), tInt), "has entries that the empty one did not: %s", clip(ev.simp(w, none).String(), 300))
	default:
		ob(ev.eqUnder(pc, v, w, t), "%s instead of %s", clip(ev.simp(w, pc).String(), 300), clip(ev.simp(v, pc).String(), 150))
	}
}

// validated are the fields that hold only values their type's parser accepts, or
// none.
func validated(p *Prog) map[string]*ssa.Function {
	parse := map[*types.Named]*ssa.Function{}
	for _, f := range p.Funcs() {
		sig := f.Signature
		if f.Object() == nil || !f.Object().Exported() || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 ||
			!isString(sig.Params().At(0).Type()) || !types.Identical(sig.Results().At(1).Type(), tError) {
			continue
		}
		if n, ok := types.Unalias(sig.Results().At(0).Type()).(*types.Named); ok && n.Obj().Pkg() == f.Pkg.Pkg {
			if u, ok := n.Underlying().(*types.Struct); ok && u.NumFields() == 1 && isString(u.Field(0).Type()) {
				parse[n] = f
			}
		}
	}
	out := map[string]*ssa.Function{}
	for _, pkg := range p.ssa {
		for _, m := range pkg.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			u, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < u.NumFields(); i++ {
				if n, ok := types.Unalias(u.Field(i).Type()).(*types.Named); ok && parse[n] != nil {
					out[u.Field(i).Name()+"."+n.Underlying().(*types.Struct).Field(0).Name()] = parse[n]
				}
			}
		}
	}
	return out
}

// granted are facts about what t depends on that constructors and setters
// ensure: names are absent or valid.
func (ev *Ev) granted(p *Prog, t *Term) *Term {
	c := ev.c
	names := validated(p)
	out := c.True
	walkTerms(t, func(x *Term) {
		if x.op == "ini" && x.args[0].op == "fld" && x.args[0].args[0].op == "fld" && len(x.free()) == 0 {
			if f := names[x.args[0].args[0].aux+"."+x.args[0].aux]; f != nil {
				ev.quietly(func() {
					_, v := ev.Call(f, []*Term{x}, nil, ev.NewState(), nil, "?")
					out = c.And(out, c.Or(c.Le(c.Len(x), c.Int(0)), c.EqAny(v[1], c.Nil)))
				})
			}
		}
		// what JSON cannot encode is S04's
		if x.op == "call" && x.aux == "jsonerr" && len(x.free()) == 0 {
			out = c.And(out, c.EqAny(x, c.Nil))
		}
		if x.op == "exists" && len(x.args) == 2 && x.args[0].op == "lam" && len(x.free()) == 0 {
			body := c.Inst(x.args[0], ev.kap(fmt.Sprintf("g%d", x.id)))
			if !ev.feasible(c.And(body, ev.granted(p, body))) {
				out = c.And(out, c.Not(c.atomB(x)))
			}
		}
	})
	return out
}

// S02: lists that are encoded and decoded again are the same.

func init() {
	register("S02", "value-flow analysis (symbolic composition of encoder and decoder in gated SSA form)", "Every exported encoder of a list into a binary message is composed with the decoder of the same name, for an arbitrary list; length, order and all parts of an arbitrary element are compared as values. Encoders are evaluated for an empty list and decoders for empty data.", checkS02)
}

func checkS02(p *Prog, r *Report) {
	r.Rule("same", 20, "a decoded list has the elements of the encoded one")
	r.Rule("accepted", 4, "what an encoder produced from a list is never refused")
	r.Rule("nothing", 4, "encoding or decoding nothing is an error")
	raw := types.NewSlice(types.Typ[types.Byte])
	for _, f := range exportedOf(p, "") {
		sig := f.Signature
		name, ok := strings.CutPrefix(f.Name(), "Encode")
		if !ok || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 || !types.Identical(sig.Results().At(0).Type(), raw) {
			continue
		}
		list, ok := sig.Params().At(0).Type().Underlying().(*types.Slice)
		g := p.pkg("").Func("Decode" + name)
		if !ok || g == nil || len(g.Params) != 1 || g.Signature.Results().Len() != 2 || !types.Identical(g.Signature.Results().At(0).Type(), sig.Params().At(0).Type()) {
			continue
		}
		at := p.at(f)
		r.guard("same", at, func() { encodePair(p, r, f, g, at, list) })
	}
}

func encodePair(p *Prog, r *Report, f, g *ssa.Function, at string, list *types.Slice) {
	ev := openSession(p)
	c := ev.c
	args := ev.argSyms(f)
	st := ev.NewState()
	enc, v := ev.Call(f, args, nil, st.clone(), nil, "")
	binary := false
	walkTerms(v[0], func(t *Term) { binary = binary || t.op == "protoenc" })
	if !binary {
		return
	}
	data := ev.argSyms(g)
	dec, w := ev.Call(g, data, nil, st.clone(), nil, "none")
	none := func(fn *ssa.Function, st *State, arg, err *Term) {
		pc := c.And(st.pc, c.EqNum(c.Len(arg), num(ev, 0)))
		r.Ob("nothing", !ev.feasible(c.And(pc, c.EqAny(err, c.Nil))), p.at(fn), "without anything to do, %s reports %s", fn.Name(), clip(ev.simp(err, pc).String(), 200))
	}
	none(f, enc, args[0], v[1])
	none(g, dec, data[0], w[1])
	cmp := &compare{ev: ev, p: p, r: r, at: at, rule: "same", pre: c.True, a: st}
	some := c.Lt(num(ev, 0), c.Len(args[0]))
	pc := c.And(some, enc.pc)
	enc.pc = pc
	pc = cmp.fine(f, enc, v, "accepted")
	out := enc.clone()
	out.pc = pc
	dec, w = ev.Call(g, []*Term{v[0]}, nil, out, nil, "decode")
	cmp.at = p.at(g)
	pc = c.And(pc, cmp.fine(g, dec, w, "accepted"))
	cmp.at, cmp.b = at, dec
	cmp.values(f.Params[0].Name(), list, args[0], w[0], pc, 0)
	r.use(ev)
}
