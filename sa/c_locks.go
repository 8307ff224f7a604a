package main

// C01 and C02: lockset analysis. Every access to data of a Device or Generator
// is recorded together with the locks that are held on all ways of reaching
// it; accesses that may run at the same time must share a lock.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type acc struct {
	thread string
	root   string
	owner  *types.Named
	path   string
	strct  bool // covers the fields of a struct value
	sub    bool // covers everything reachable
	write  bool
	atomic bool
	locks  map[string]string // lock field -> "W"/"R", must-held
	where  string
}

func (a *acc) covers(b *acc) bool {
	if a.path == b.path {
		return true
	}
	if a.sub && strings.HasPrefix(b.path, a.path) {
		return true
	}
	if a.strct && strings.HasPrefix(b.path, a.path+".") && !strings.Contains(b.path[len(a.path):], "→") {
		return true
	}
	return false
}

func overlap(a, b *acc) bool { return a.covers(b) || b.covers(a) }

type lockEdge struct{ from, to, where string }

type lockRun struct {
	p      *Prog
	r      *Report
	owners []*types.Named
	accs   []*acc
	edges  []lockEdge
	spawn  map[*ssa.Function]bool
	seen   map[string]bool
	rules  struct{ relock, release, callback, wait string }
	nLock  int
	// sum: calls of these functions are replaced by their own analysis
	sum map[*ssa.Function]bool
	acq map[string]map[string]bool // root -> lock classes it waits for
}

func (lr *lockRun) ownerOf(p *Term) (*Term, *types.Named) {
	var n *types.Named
	b := baseOf(p, func(t *Term) bool {
		if t.op == "alloc" || t.op == "fresh" || t.op == "clone" {
			return false
		}
		for _, o := range lr.owners {
			if isPtrTo(t, o) {
				n = o
				return true
			}
		}
		return false
	})
	return b, n
}

// eqStr: the lock state is v on every way here.
func (ev *Ev) lockIs(st *State, mu *Term, v string) bool {
	s := ev.lockState(st, mu)
	w := ev.c.leaf("str", v)
	if s == w {
		return true
	}
	if s.op == "str" {
		return false
	}
	return ev.entails(ev.fullPC(st), ev.c.Eq(s, w))
}

// lockHeld is "W" or "R" if the lock is held at least that way on every way here.
func (ev *Ev) lockHeld(st *State, mu *Term) string {
	s := ev.lockState(st, mu)
	if s.op == "str" {
		if s.aux == "W" || s.aux == "R" {
			return s.aux
		}
		return ""
	}
	k := [3]*Term{s, st.pc, nil}
	if n := len(ev.outer); n > 0 {
		k[2] = ev.outer[n-1]
	}
	if r, ok := ev.heldMemo[k]; ok {
		return r
	}
	r := "W"
	ev.leaves(s, ev.c.True, func(q, cond *Term) {
		if q.op == "str" && (q.aux == r || q.aux == "W") || r == "" {
			return
		}
		if ev.c.And(st.pc, cond) == ev.c.False || !ev.sat(ev.c.And(ev.fullPC(st), cond), 200) {
			return
		}
		if q.op == "str" && q.aux == "R" {
			r = "R"
			return
		}
		r = ""
	})
	ev.heldMemo[k] = r
	return r
}

func (lr *lockRun) record(ev *Ev, fr *Frame, st *State, thread, root string, p *Term, ty types.Type, write, sub, atomic bool, pos token.Pos) {
	for _, leaf := range leafSet(p) {
		q := leaf
		for q.op == "iface" {
			q = q.args[0]
		}
		b, n := lr.ownerOf(q)
		if b == nil || q == b && !sub && !isStructTy(ty) {
			continue
		}
		path := pathFrom(q, b)
		if path == "" && !sub {
			continue
		}
		skip := false
		for _, lf := range lockFields(n) {
			if path == "."+lf {
				skip = true
			}
		}
		if skip {
			continue
		}
		strct := isStructTy(ty) && !ev.opaque(ty)
		a := &acc{thread: thread, root: root, owner: n, path: path, write: write, sub: sub, strct: strct, atomic: atomic, locks: map[string]string{}, where: lr.p.where(fr, pos)}
		for _, lf := range lockFields(n) {
			mu := ev.c.Fld(b, lf)
			m := ev.lockHeld(st, mu)
			if m == "" && p.op == "ite" && ev.lockState(st, mu).op == "ite" {
				s2 := *st
				s2.pc = ev.c.And(st.pc, ev.isLeaf(p, leaf))
				m = ev.lockHeld(&s2, mu)
			}
			if m != "" {
				a.locks[lf] = m
			}
		}
		k := fmt.Sprint(a.thread, a.root, a.path, a.write, a.sub, a.strct, a.atomic, a.locks, a.where)
		if lr.seen[k] {
			continue
		}
		lr.seen[k] = true
		lr.accs = append(lr.accs, a)
	}
}

func isStructTy(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func lockClass(mu *Term) string {
	f := ""
	for mu.op == "fld" {
		f = "." + mu.aux + f
		mu = mu.args[0]
		if mu.typ != nil {
			if pt, ok := types.Unalias(mu.typ).(*types.Pointer); ok {
				if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
					return n.Obj().Pkg().Name() + "." + n.Obj().Name() + f
				}
			}
		}
	}
	if mu.op == "global" {
		return mu.aux + f
	}
	return mu.op + f
}

// heldOthers lists the classes of locks that may be held now.
func (lr *lockRun) heldOthers(ev *Ev, st *State, except *Term) []string {
	var out []string
	U := ev.c.leaf("str", "U")
	pc := ev.fullPC(st)
	for k, v := range st.mem {
		if k.op != "lockst" || v == U || k.args[0] == except {
			continue
		}
		if v.op == "ite" && !ev.sat(ev.c.And(pc, ev.c.Not(ev.c.Eq(v, U))), 200) {
			continue
		}
		out = append(out, lockClass(k.args[0]))
	}
	for key, log := range st.logs {
		if !strings.HasPrefix(key, "lockst") || len(log) == 0 {
			continue
		}
		if ev.logMayHold(st, key, log) {
			ex := ev.shapeEx[key]
			if ex != nil && ex.args[0] != except {
				out = append(out, lockClass(ex.args[0]))
			}
		}
	}
	sort.Strings(out)
	return out
}

func (ev *Ev) logMayHold(st *State, key string, log []*entry) bool {
	c := ev.c
	U := c.leaf("str", "U")
	ex := ev.shapeEx[key]
	for _, e := range log {
		if e.mark != nil {
			for _, pe := range e.mark.pats {
				if pe.val != U && pe.val != nil {
					return true
				}
			}
			continue
		}
		v := ev.loadLog(st, log, len(log)-1, &shapeInfo{key: key, holes: e.holes}, ex, tStr)
		if v == U {
			continue
		}
		g := e.guard
		if e.dom != nil {
			g = c.And(g, e.dom)
		}
		if ev.sat(c.And(c.And(ev.fullPC(st), g), c.Not(c.Eq(v, U))), 400) {
			return true
		}
	}
	return false
}

// hooksOn installs the recorder in ev.
func (lr *lockRun) hooksOn(ev *Ev, thread, root string) {
	c := ev.c
	r := lr.r
	ev.onAccess = func(fr *Frame, st *State, p *Term, ty types.Type, w bool, pos token.Pos) {
		lr.record(ev, fr, st, thread, root, p, ty, w, false, false, pos)
	}
	ev.onAtomic = func(fr *Frame, st *State, op string, p *Term, in ssa.Instruction) {
		lr.record(ev, fr, st, thread, root, p, nil, op != "Load", false, true, in.Pos())
	}
	ev.onLock = func(fr *Frame, st *State, op string, mu *Term, pos token.Pos) {
		w := lr.p.where(fr, pos)
		ev.leaves(mu, st.pc, func(m, cond *Term) {
			s2 := *st
			s2.pc = cond
			_, own := lr.ownerOf(m)
			mine := own != nil
			if strings.HasPrefix(op, "Try") {
				return
			}
			lr.nLock++
			if mine {
				switch op {
				case "Lock", "RLock":
					r.Ob(lr.rules.relock, ev.lockIs(&s2, m, "U"), w, "%s of %s while it is free", op, lockClass(m))
				case "Unlock":
					r.Ob(lr.rules.relock, ev.lockIs(&s2, m, "W"), w, "%s of %s while held exclusively", op, lockClass(m))
				case "RUnlock":
					r.Ob(lr.rules.relock, ev.lockIs(&s2, m, "R"), w, "%s of %s while held shared", op, lockClass(m))
				}
			}
			if op == "Lock" || op == "RLock" {
				if lr.acq == nil {
					lr.acq = map[string]map[string]bool{}
				}
				if lr.acq[root] == nil {
					lr.acq[root] = map[string]bool{}
				}
				lr.acq[root][lockClass(m)] = true
				for _, h := range lr.heldOthers(ev, &s2, m) {
					lr.edges = append(lr.edges, lockEdge{h, lockClass(m), w})
				}
			}
		})
	}
	noGenLock := func(rule string, fr *Frame, st *State, what string, pos token.Pos) {
		if rule == "" {
			return
		}
		var held []string
		for _, h := range lr.heldOthers(ev, st, nil) {
			if strings.HasPrefix(h, "gpsgen.Generator.") {
				held = append(held, h)
			}
		}
		r.Ob(rule, len(held) == 0, lr.p.where(fr, pos), "%s with no generator lock held (held: %v)", what, held)
	}
	ev.onSelect = func(fr *Frame, st *State, s *ssa.Select) {
		if s.Blocking {
			noGenLock(lr.rules.wait, fr, st, "select", s.Pos())
		}
	}
	ev.onInstr = func(fr *Frame, st *State, in ssa.Instruction) {
		if ev.trial > 0 {
			return
		}
		switch x := in.(type) {
		case *ssa.Send:
			noGenLock(lr.rules.wait, fr, st, "channel send", x.Pos())
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				noGenLock(lr.rules.wait, fr, st, "channel receive", x.Pos())
			}
		}
	}
	ev.onExt = func(fr *Frame, st *State, ci *CallInfo) {
		if ci.Name == "dynamic" {
			ev.leaves(ci.Callee, st.pc, func(cal, cond *Term) {
				b, n := lr.ownerOf(cal)
				if b != nil && n.Obj().Name() == "Generator" {
					s2 := *st
					s2.pc = cond
					noGenLock(lr.rules.callback, fr, &s2, "callback "+cal.String(), ci.Instr.Pos())
				}
			})
			return
		}
	}
	ev.onCall = func(fr *Frame, st *State, ci *CallInfo) ([]*Term, bool) {
		if ci.Go && ci.Fn != nil {
			lr.spawn[ci.Fn] = true
			return nil, false
		}
		if ci.Fn != nil && lr.sum[ci.Fn] && len(ev.stack) > 0 && ev.stack[0] != ci.Fn {
			if ev.trial == 0 {
				lr.summary(ev, fr, st, ci, root)
			}
			var res []*Term
			for i, t := range resultTypes(ci.Com) {
				res = append(res, ev.fresh(fmt.Sprintf("%s#%d@%s", ci.Name, i, ev.site(fr, ci.Instr)), t))
			}
			return res, true
		}
		if ev.trial > 0 {
			return nil, false
		}
		if ci.Name == "(*sync.WaitGroup).Wait" {
			noGenLock(lr.rules.wait, fr, st, "WaitGroup.Wait", ci.Instr.Pos())
		}
		outside := ci.Fn == nil || ci.Fn.Pkg == nil || !lr.p.inRepo(ci.Fn.Pkg.Pkg.Path()) || !ev.wantInline(ci.Fn)
		if !outside || strings.Contains(ci.Name, "sync") || strings.HasPrefix(ci.Name, "builtin.") || ci.Name == "dynamic" {
			return nil, false
		}
		if ci.Fn != nil && ci.Fn.Pkg == nil && ev.wantInline(ci.Fn) {
			return nil, false
		}
		proto := strings.Contains(ci.Name, "protobuf") || strings.Contains(ci.Name, "/proto.")
		for i, a := range ci.Args {
			if !isRefTerm(a) {
				continue
			}
			w := !readOnly(ci.Name) || strings.Contains(ci.Name, "math/rand.") || strings.Contains(ci.Name, "fastrand")
			lr.record(ev, fr, st, thread, root, a, nil, w && !proto, true, false, ci.Instr.Pos())
			if proto {
				lr.subtree(ev, fr, st, thread, root, a, ci.Instr.Pos(), 0)
			}
			_ = i
		}
		return nil, false
	}
	_ = c
}

// summary: a call of an operation that is analysed as a root of its own,
// starting with its receiver's locks free.
func (lr *lockRun) summary(ev *Ev, fr *Frame, st *State, ci *CallInfo, root string) {
	w := lr.p.where(fr, ci.Instr.Pos())
	n := recvOf(ci.Fn)
	for _, leaf := range leafSet(ci.Args[0]) {
		for _, lf := range lockFields(n) {
			mu := ev.c.Fld(leaf, lf)
			s2 := *st
			s2.pc = ev.c.And(st.pc, ev.isLeaf(ci.Args[0], leaf))
			lr.r.Ob(lr.rules.relock, ev.lockIs(&s2, mu, "U"), w, "%s is called while the lock of its receiver is free", shortFn(ci.Fn))
		}
	}
	for cl := range lr.acq[shortFn(ci.Fn)] {
		for _, h := range lr.heldOthers(ev, st, nil) {
			lr.edges = append(lr.edges, lockEdge{h, cl, w})
		}
	}
}

// subtree: library code reads everything reachable from the local message a.
func (lr *lockRun) subtree(ev *Ev, fr *Frame, st *State, thread, root string, a *Term, pos token.Pos, depth int) {
	ev.leaves(a, ev.c.True, func(q, cond *Term) {
		p, et := ptrOf(q)
		if p == nil || p.op != "alloc" && p.op != "hv" {
			return
		}
		for _, f := range exportedFields(et) {
			v := ev.Load(st, ev.c.Fld(p, f.Name()), f.Type())
			lr.record(ev, fr, st, thread, root, v, nil, false, true, false, pos)
		}
	})
}

func isRefTerm(t *Term) bool {
	for t.op == "ite" {
		t = t.args[1]
	}
	if t.op == "iface" {
		return isRefTerm(t.args[0])
	}
	switch t.op {
	case "fld", "idx", "alloc", "mkslice", "sub", "append", "appslice", "mkmap":
		return true
	}
	if t.typ == nil {
		return false
	}
	switch t.typ.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	}
	return false
}

// evalRoot runs one root with the recorder on.
func (lr *lockRun) evalRoot(f *ssa.Function, thread string, rule string) (st *State, vals []*Term, ev *Ev, args []*Term) {
	ev = NewEv(lr.p)
	pureGeo(ev, lr.p)
	lr.hooksOn(ev, thread, shortFn(f))
	args = ev.argSyms(f)
	st, vals = ev.Call(f, args, nil, ev.NewState(), nil, "")
	lr.r.use(ev)
	if st != nil {
		U := ev.c.leaf("str", "U")
		var bad []string
		for k, v := range st.mem {
			if k.op == "lockst" && v != U && !(v.op == "ite" && ev.entails(st.pc, ev.c.Eq(v, U))) {
				bad = append(bad, lockClass(k.args[0]))
			}
		}
		for key, log := range st.logs {
			if strings.HasPrefix(key, "lockst") && ev.logMayHold(st, key, log) {
				bad = append(bad, lockClass(ev.shapeEx[key].args[0]))
			}
		}
		lr.r.Ob(rule, len(bad) == 0, lr.p.at(f), "every way out of %s leaves its locks released %v", shortFn(f), bad)
	}
	return
}

// pureGeo keeps geodesic formulas as uninterpreted functions.
func pureGeo(ev *Ev, p *Prog) {
	old := ev.models
	ev.models = map[string]model{}
	for k, v := range old {
		ev.models[k] = v
	}
	if pk := p.pkg("geo"); pk != nil {
		for _, m := range pk.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			pure := true
			for _, q := range f.Params {
				if !isNumeric(q.Type()) {
					pure = false
				}
			}
			if !pure || f.Signature.Results().Len() == 0 {
				continue
			}
			name := f.String()
			ev.models[name] = func(ev *Ev, fr *Frame, st *State, ci *CallInfo) []*Term {
				var res []*Term
				for i, t := range resultTypes(ci.Com) {
					res = append(res, ev.uapp(fmt.Sprintf("%s#%d", ci.Name, i), t, ci.Args...))
				}
				return res
			}
		}
	}
}

func recvOf(f *ssa.Function) *types.Named {
	if f.Signature.Recv() == nil {
		return nil
	}
	t := types.Unalias(f.Signature.Recv().Type())
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// goEntries are the functions started with go statements in library code.
func goEntries(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					var fn *ssa.Function
					if s := g.Call.StaticCallee(); s != nil {
						fn = s
					}
					if fn != nil && !seen[fn] {
						seen[fn] = true
						out = append(out, fn)
					}
				}
			}
		}
	}
	return out
}

// exportedOf lists exported functions and methods of a package's files.
func exportedOf(p *Prog, rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs() {
		if f.Parent() != nil || f.Pkg != p.pkg(rel) || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if n := recvOf(f); n != nil && !n.Obj().Exported() {
			continue
		}
		out = append(out, f)
	}
	return out
}

func takes(f *ssa.Function, n *types.Named) bool {
	for _, q := range f.Params {
		if isPtrType(q.Type(), n) {
			return true
		}
	}
	return false
}

func isPtrType(t types.Type, n *types.Named) bool {
	pt, ok := types.Unalias(t).(*types.Pointer)
	return ok && types.Identical(pt.Elem(), n)
}

func init() {
	register("C01", "lockset and escape analysis over SSA", "Lockset analysis of the device: every public device operation, and every generator function that uses a device, is evaluated by gated value numbering over SSA; each access to data reached through a *Device is recorded with the locks held on all paths to it; accesses that may overlap must share the device lock, exclusively for writes; lock balance on every exit, no re-acquisition, no internal state in results.", checkC01)
	register("C02", "lockset, lock-order and effect analysis over SSA", "Lockset analysis of the generator across its four kinds of goroutine (callers, tick loop, encoding workers, next-tick notifier), lock-order graph, lock balance, callbacks and waits outside generator locks, and effect analysis of package-level state.", checkC02)
}

func checkC01(p *Prog, r *Report) {
	dev := mustType(p, "", "Device")
	gen := mustType(p, "", "Generator")
	r.Rule("locked-access", 60, "data of a device that any operation modifies is accessed only with the device lock held (exclusively when modified)")
	r.Rule("lock-balance", 40, "the device lock is released on every way out")
	r.Rule("lock-state", 40, "the device lock is never taken by its holder and only released when held")
	r.Rule("no-leak", 40, "results do not alias the live state or the internal lists of the device")
	if len(lockFields(dev)) == 0 {
		r.Ob("lock-state", false, "device.go Device", "Device has no lock")
		return
	}
	lr := &lockRun{p: p, r: r, owners: []*types.Named{dev}, spawn: map[*ssa.Function]bool{}, seen: map[string]bool{}}
	lr.rules.relock = "lock-state"
	lr.sum = map[*ssa.Function]bool{}
	var roots []*ssa.Function
	for _, own := range []bool{true, false} {
		for _, f := range append(exportedOf(p, ""), goEntries(p)...) {
			if recvOf(f) == dev && f.Object() != nil && f.Object().Exported() {
				lr.sum[f] = true
			}
			if own == (recvOf(f) == dev) && (own || takes(f, dev) || recvOf(f) == gen) {
				roots = append(roots, f)
			}
		}
	}
	for _, f := range roots {
		own := recvOf(f) == dev
		f := f
		r.guard("lock-balance", p.at(f), func() {
			st, vals, ev, args := lr.evalRoot(f, "any", "lock-balance")
			if own && st != nil && f.Object() != nil && f.Object().Exported() {
				bad := lr.leaks(ev, st, vals, f, args[0])
				r.Ob("no-leak", len(bad) == 0, p.at(f), "results of %s are copies %v", shortFn(f), bad)
			}
		})
	}
	lr.conflicts("locked-access", func(a, b *acc) bool { return true })
}

// leaks finds result parts that are internal lists or the live state.
func (lr *lockRun) leaks(ev *Ev, st *State, vals []*Term, f *ssa.Function, recv *Term) []string {
	var bad []string
	seen := map[*Term]bool{}
	var walk func(v *Term, ty types.Type, depth int)
	walk = func(v *Term, ty types.Type, depth int) {
		if depth > 8 {
			return
		}
		ev.leaves(v, st.pc, func(q, cond *Term) {
			if seen[q] || !ev.feasible(cond) {
				return
			}
			seen[q] = true
			internal := false
			if b := baseOf(q, func(t *Term) bool { return t == recv }); b != nil && q != recv {
				internal = true
			}
			switch u := types.Unalias(ty).Underlying().(type) {
			case *types.Slice:
				if internal {
					bad = append(bad, "internal list "+q.String())
					return
				}
				el := u.Elem()
				if isShareable(el) {
					return
				}
				k := ev.c.intern(&Term{op: "kappa", aux: "leak", isInt: true})
				if q.op == "append" || q.op == "mkslice" || q.op == "appmap" {
					walk(ev.Load(st, ev.c.Idx(q, k), el), el, depth+1)
				}
			case *types.Map:
				if internal {
					bad = append(bad, "internal map "+q.String())
				}
			case *types.Pointer:
				if isShareable(ty) {
					return
				}
				if internal {
					bad = append(bad, "live data "+q.String())
					return
				}
				if q.op != "alloc" {
					return
				}
				for _, fl := range exportedFields(u.Elem()) {
					walk(ev.Load(st, ev.c.Fld(q, fl.Name()), fl.Type()), fl.Type(), depth+1)
				}
			case *types.Struct:
			}
		})
	}
	res := f.Signature.Results()
	for i, v := range vals {
		walk(v, res.At(i).Type(), 0)
	}
	sort.Strings(bad)
	return bad
}

// isShareable: routes, tracks, sensors and devices are shared objects by design.
func isShareable(t types.Type) bool {
	pt, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Name() + "." + n.Obj().Name() {
	case "navigator.Route", "navigator.Track", "types.Sensor", "gpsgen.Device":
		return true
	}
	return false
}

// conflicts reports pairs of accesses that may overlap without a common lock.
func (lr *lockRun) conflicts(rule string, concurrent func(a, b *acc) bool) {
	r := lr.r
	for _, a := range lr.accs {
		need := false
		bad := ""
		for _, b := range lr.accs {
			if a.owner != b.owner || !a.write && !b.write || !overlap(a, b) || !concurrent(a, b) {
				continue
			}
			need = true
			if a.atomic && b.atomic {
				continue
			}
			ok := false
			for l, m := range a.locks {
				if m2, has := b.locks[l]; has {
					if (m == "W" || !a.write) && (m2 == "W" || !b.write) {
						ok = true
					}
				}
			}
			if !ok {
				// blame the side with fewer locks
				if len(b.locks) < len(a.locks) && b != a {
					continue
				}
				k := "read"
				if b.write {
					k = "modified"
				}
				bad = fmt.Sprintf("%s%s is accessed holding %v while it is %s at %s (%s) holding %v", a.owner.Obj().Name(), a.path, a.locks, k, b.where, b.root, b.locks)
				break
			}
		}
		if !need {
			continue
		}
		if bad == "" {
			r.Ob(rule, true, a.where, "%s%s under %v", a.owner.Obj().Name(), a.path, a.locks)
		} else {
			r.Ob(rule, false, a.where, "%s", bad)
		}
	}
}

func checkC02(p *Prog, r *Report) {
	dev := mustType(p, "", "Device")
	gen := mustType(p, "", "Generator")
	r.Rule("locked-access", 12, "generator data that is modified by one goroutine is accessed from others only under a common lock")
	r.Rule("lock-balance", 12, "generator locks are released on every way out")
	r.Rule("lock-state", 12, "a generator lock is never taken by its holder and only released when held")
	r.Rule("lock-order", 2, "locks are nested in one global order")
	r.Rule("callback-unlocked", 3, "packet, error and next-tick callbacks run with no generator lock held")
	r.Rule("wait-unlocked", 4, "channel waits happen with no generator lock held")
	r.Rule("package-state", 1, "package-level variables are written during initialisation only")
	r.Rule("shared-random", 3, "the shared random source is used under its lock")
	lr := &lockRun{p: p, r: r, owners: []*types.Named{gen}, spawn: map[*ssa.Function]bool{}, seen: map[string]bool{}}
	lr.rules.relock = "lock-state"
	lr.rules.callback = "callback-unlocked"
	lr.rules.wait = "wait-unlocked"
	entries := goEntries(p)
	isGo := map[*ssa.Function]bool{}
	for _, f := range entries {
		isGo[f] = true
	}
	// how many instances of each goroutine: a go statement inside a loop, or
	// several go statements, means many
	many := map[*ssa.Function]bool{}
	cnt := map[*ssa.Function]int{}
	ev0 := NewEv(p)
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && g.Call.StaticCallee() != nil {
					cnt[g.Call.StaticCallee()]++
					if ev0.forest(f).inner[b] != nil {
						many[g.Call.StaticCallee()] = true
					}
				}
			}
		}
	}
	multi := map[string]bool{"caller": true}
	var roots []*ssa.Function
	lr.sum = map[*ssa.Function]bool{}
	for _, own := range []bool{true, false} {
		for _, f := range exportedOf(p, "") {
			if recvOf(f) == dev {
				lr.sum[f] = true
			}
			if own == (recvOf(f) == dev) && (own || recvOf(f) == gen || takes(f, gen)) {
				roots = append(roots, f)
			}
		}
	}
	for _, f := range roots {
		f := f
		r.guard("lock-balance", p.at(f), func() { lr.evalRoot(f, "caller", "lock-balance") })
	}
	for _, f := range entries {
		f := f
		if many[f] || cnt[f] > 1 {
			multi[shortFn(f)] = true
		}
		r.guard("lock-balance", p.at(f), func() { lr.evalRoot(f, shortFn(f), "lock-balance") })
	}
	lr.conflicts("locked-access", func(a, b *acc) bool { return a.thread != b.thread || multi[a.thread] })
	lockOrder(r, lr.edges)

	// package-level state
	nInit := 0
	for _, pk := range p.ssa {
		if !p.isLib(pk.Pkg.Path()) || pk.Pkg.Name() == "proto" {
			continue
		}
		if init := pk.Func("init"); init != nil {
			nInit += globalWrites(init, func(in ssa.Instruction, g *ssa.Global) {})
		}
	}
	r.Ob("package-state", nInit > 0, "package initialisers", "%d initialising writes recognised", nInit)
	for _, f := range p.Funcs() {
		if f.Pkg.Pkg.Name() == "proto" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		globalWrites(f, func(in ssa.Instruction, g *ssa.Global) {
			r.Ob("package-state", false, p.Pos(in.Pos())+" "+shortFn(f), "package variable %s is written outside initialisation", g.Name())
		})
	}
	// the shared random source
	rt := mustType(p, "random", "Random")
	lr2 := &lockRun{p: p, r: r, owners: []*types.Named{rt}, spawn: map[*ssa.Function]bool{}, seen: map[string]bool{}}
	lr2.rules.relock = "lock-state"
	for _, f := range p.Methods(rt, true) {
		f := f
		r.guard("lock-balance", p.at(f), func() { lr2.evalRoot(f, "caller", "lock-balance") })
	}
	lr2.conflicts("shared-random", func(a, b *acc) bool { return true })
}

func lockOrder(r *Report, edges []lockEdge) {
	adj := map[string]map[string]string{}
	for _, e := range edges {
		if adj[e.from] == nil {
			adj[e.from] = map[string]string{}
		}
		if _, ok := adj[e.from][e.to]; !ok {
			adj[e.from][e.to] = e.where
		}
	}
	var names []string
	for n := range adj {
		names = append(names, n)
	}
	sort.Strings(names)
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		if from == to {
			return true
		}
		if seen[from] {
			return false
		}
		seen[from] = true
		for n := range adj[from] {
			if reach(n, to, seen) {
				return true
			}
		}
		return false
	}
	for _, a := range names {
		var bs []string
		for b := range adj[a] {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			cyc := reach(b, a, map[string]bool{})
			r.Ob("lock-order", !cyc, adj[a][b], "%s is taken while holding %s and never the other way round", b, a)
		}
	}
}

func globalWrites(f *ssa.Function, each func(in ssa.Instruction, g *ssa.Global)) int {
	n := 0
	var root func(v ssa.Value) *ssa.Global
	root = func(v ssa.Value) *ssa.Global {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return root(x.X)
		case *ssa.IndexAddr:
			return root(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if _, ok := x.X.(*ssa.Global); ok {
					switch x.Type().Underlying().(type) {
					case *types.Slice, *types.Map:
						return root(x.X)
					}
				}
			}
		}
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var g *ssa.Global
			switch x := in.(type) {
			case *ssa.Store:
				g = root(x.Addr)
			case *ssa.MapUpdate:
				g = root(x.Map)
			}
			if g != nil {
				n++
				each(in, g)
			}
		}
	}
	return n
}
