package main

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------- addresses

func (c *TermCtx) Fld(p *Term, name string) *Term {
	return c.App("fld:"+name, func(x []*Term) *Term { return c.raw("fld", name, false, x[0]) }, p)
}

// Idx is the address of element i of slice (or array pointer) s.
func (c *TermCtx) Idx(s, i *Term) *Term {
	return c.App("idx", func(x []*Term) *Term {
		s, i := x[0], x[1]
		switch s.op {
		case "mkslice":
			return c.raw("idx", "", false, s.args[1], i)
		case "sub":
			return c.Idx(s.args[0], c.Add(s.args[1], i))
		}
		return c.raw("idx", "", false, s, i)
	}, s, i)
}

// ---------- binders. The bound variable of a body is the canonical symbol
// bv<d> with d above every binder inside the body.

func bvDepth(t *Term, memo map[int]int) int {
	if d, ok := memo[t.id]; ok {
		return d
	}
	d := 0
	if t.op == "bv" {
		n, _ := strconv.Atoi(t.aux[1:])
		d = n + 1
	}
	for _, a := range t.args {
		if x := bvDepth(a, memo); x > d {
			d = x
		}
	}
	for _, m := range t.monos {
		for _, f := range m.fs {
			if x := bvDepth(f, memo); x > d {
				d = x
			}
		}
	}
	memo[t.id] = d
	return d
}

// Bind turns body over symbol k into (bv, body[bv]). The canonical binder is
// numbered above all bv occurring in the body, whether bound or free.
func (c *TermCtx) Bind(body, k *Term) *Term {
	d := bvDepth(body, map[int]int{})
	b := c.intern(&Term{op: "bv", aux: "b" + strconv.Itoa(d), isInt: k.isInt})
	return c.raw("lam", b.aux, false, b, c.Subst(body, map[int]*Term{k.id: b}))
}

// lam is the function of b given by body.
func (c *TermCtx) lam(b, body *Term) *Term {
	d := bvDepth(body, map[int]int{b.id: 0})
	if !c.splitSums || b.aux == "b"+strconv.Itoa(d) {
		return c.raw("lam", b.aux, false, b, body)
	}
	k := c.intern(&Term{op: "bv", aux: "b" + strconv.Itoa(d), isInt: b.isInt})
	return c.raw("lam", k.aux, false, k, c.Subst(body, map[int]*Term{b.id: k}))
}

// Inst applies a lam.
func (c *TermCtx) Inst(lam, x *Term) *Term {
	return c.Subst(lam.args[1], map[int]*Term{lam.args[0].id: x})
}

func (c *TermCtx) AppMap(s, n, lam *Term) *Term {
	if n.isConstNum() && n.ratVal().Sign() == 0 {
		return s
	}
	if s.op == "ite" || n.op == "ite" {
		return c.App("appmap:"+strconv.Itoa(lam.id), func(x []*Term) *Term { return c.AppMap(x[0], x[1], lam) }, s, n)
	}
	return c.raw("appmap", "", false, s, n, lam)
}

func (c *TermCtx) Sum(lam, n *Term) *Term {
	if n.op == "ite" {
		return c.App("sum:"+strconv.Itoa(lam.id), func(x []*Term) *Term { return c.Sum(lam, x[0]) }, n)
	}
	if n.isConstNum() && n.ratVal().Sign() == 0 {
		return c.Int(0)
	}
	if b := lam.args[1]; b.isConstNum() || b.isInt && b.op != "ite" && !b.contains(lam.args[0]) {
		return c.Mul(b, n)
	}
	if n.isConstNum() && n.ratVal().IsInt() && n.ratVal().Num().IsInt64() && n.ratVal().Num().Int64() <= 4 && n.ratVal().Sign() > 0 {
		r := c.Int(0)
		for i := int64(0); i < n.ratVal().Num().Int64(); i++ {
			r = c.Add(r, c.Inst(lam, c.Int(i)))
		}
		return r
	}
	if b := lam.args[1]; b.op == "poly" && !b.isInt && len(b.monos) == 1 && b.monos[0].c.Cmp(big.NewRat(1, 1)) != 0 {
		// a common factor
		one := c.fromMonos([]mono{{big.NewRat(1, 1), b.monos[0].fs}}, false)
		return c.Mul(c.numRat(b.monos[0].c, false), c.Sum(c.lam(lam.args[0], one), n))
	}
	care := c.Lt(c.Int(0), n)
	if n.op == "first" && len(n.args) == 2 {
		care = c.And(care, c.Lt(c.Int(0), n.args[1]))
	}
	if in := c.restrictLam(lam, care); c.splitSums && in != lam {
		return c.Sum(in, n)
	}
	if a := freeTest(lam.args[1], lam.args[0]); a != nil && c.splitSums {
		// a test that is the same for every term
		part := func(care *Term) *Term {
			return c.Sum(c.lam(lam.args[0], c.Restrict(lam.args[1], care)), n)
		}
		g := c.atomB(a)
		return c.Ite(g, part(g), part(c.Not(g)))
	}
	if b := lam.args[1]; b.op == "ite" && (b.args[0].op == "eq0" || b.args[0].op == "le0" && (b.args[0].args[0] == lam.args[0] || b.args[0].args[0] == c.Sub(c.Sub(n, c.Int(1)), lam.args[0]))) {
		// one term of the sum differs from the others
		p, v := b.args[0].args[0], lam.args[0]
		if k := coefOf(p, v); k != nil && k.IsInt() && k.Num().BitLen() == 1 {
			at := c.Mul(c.Sub(c.Mul(c.numRat(k, true), v), p), c.numRat(k, true))
			if !at.contains(v) {
				rest := c.lam(v, b.args[2])
				in := c.And(c.Le(c.Int(0), at), c.Lt(at, n))
				if at == c.Sub(n, c.Int(1)) {
					return c.Ite(in, c.Add(c.Sum(rest, at), c.Subst(b.args[1], map[int]*Term{v.id: at})), c.Int(0))
				}
				one := c.Sub(c.Subst(b.args[1], map[int]*Term{v.id: at}), c.Subst(b.args[2], map[int]*Term{v.id: at}))
				return c.Add(c.Sum(rest, n), c.Ite(in, one, c.Int(0)))
			}
		}
	}
	t := c.raw("sum", "", lam.args[1].isInt, lam, n)
	if t.typ == nil {
		t.typ = types.Typ[types.Float64]
	}
	if c.leavesNonNeg(lam.args[1]) {
		c.nonNeg[t.id] = true
	}
	return t
}

// freeTest is a test inside the diagram b that does not depend on v.
func freeTest(b, v *Term) *Term {
	seen := map[int]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != "ite" || seen[t.id] {
			return nil
		}
		seen[t.id] = true
		if !t.args[0].contains(v) {
			return t.args[0]
		}
		if a := rec(t.args[1]); a != nil {
			return a
		}
		return rec(t.args[2])
	}
	return rec(b)
}

func (c *TermCtx) leavesNonNeg(t *Term) bool {
	if t.op == "ite" {
		return c.leavesNonNeg(t.args[1]) && c.leavesNonNeg(t.args[2])
	}
	for _, m := range c.monosOf(t) {
		if m.c.Sign() < 0 {
			return false
		}
		for _, f := range m.fs {
			if !c.isNonNeg(f) {
				return false
			}
		}
	}
	return true
}

// First returns (exists, index) for the first κ in [0,n) satisfying lam;
// n == nil means unbounded (then exists is True).
// decided is the place where a search is known to end, if it is one of the first.
func (c *TermCtx) decided(lam *Term) int {
	if j, ok := c.peeled[lam.id]; ok {
		return j
	}
	at := -1
	for j := 0; j < 8; j++ {
		x := c.Inst(lam, c.Int(int64(j)))
		if x == c.True {
			at = j
		}
		if x != c.False {
			break
		}
	}
	if c.peeled == nil {
		c.peeled = map[int]int{}
	}
	c.peeled[lam.id] = at
	return at
}

func (c *TermCtx) First(lam, n *Term) (*Term, *Term) {
	if n == nil {
		t := c.raw("first", "inf", true, lam)
		return c.True, t
	}
	if n.op == "ite" {
		e := c.App("ex:"+strconv.Itoa(lam.id), func(x []*Term) *Term { e, _ := c.First(lam, x[0]); return e }, n)
		k := c.App("fi:"+strconv.Itoa(lam.id), func(x []*Term) *Term { _, k := c.First(lam, x[0]); return k }, n)
		return e, k
	}
	if n.isConstNum() && n.ratVal().Sign() <= 0 || lam.args[1] == c.False {
		return c.False, n
	}
	if n.isConstNum() && n.ratVal().IsInt() && n.ratVal().Cmp(big.NewRat(8, 1)) <= 0 {
		e, k := c.False, n
		for i := n.ratVal().Num().Int64() - 1; i >= 0; i-- {
			x := c.Inst(lam, c.Int(i))
			e, k = c.Or(x, e), c.Ite(x, c.Int(i), k)
		}
		return e, k
	}
	if !lam.args[1].contains(lam.args[0]) {
		some := c.And(lam.args[1], c.Lt(c.Int(0), n))
		return some, c.Ite(some, c.Int(0), n)
	}
	// the answer may be known for the first places
	if j := c.decided(lam); j >= 0 {
		some := c.Lt(c.Int(int64(j)), n)
		return some, c.Ite(some, c.Int(int64(j)), n)
	}
	// the places after a list of unknown length are looked at one by one
	if n.op == "poly" && len(n.monos) == 2 && len(n.monos[1].fs) == 0 {
		if k := n.monos[1].c; k.IsInt() && k.Sign() > 0 && k.Cmp(big.NewRat(3, 1)) <= 0 {
			m := c.Sub(n, c.Int(k.Num().Int64()))
			if c.isNonNeg(m) {
				bv := lam.args[0]
				v := c.intern(&Term{op: "kappa", aux: "f{" + strconv.Itoa(lam.id) + "}", isInt: true})
				in := c.Bind(c.Restrict(c.Subst(c.Restrict(lam.args[1], c.Lt(bv, m)), map[int]*Term{bv.id: v}), c.Lt(v, m)), v)
				e, i := c.First(in, m)
				r, j := c.False, n
				for q := k.Num().Int64() - 1; q >= 0; q-- {
					at := c.Add(m, c.Int(q))
					x := c.Inst(lam, at)
					r, j = c.Or(x, r), c.Ite(x, at, j)
				}
				return c.Or(e, r), c.Ite(e, i, j)
			}
		}
	}
	if !c.splitSums {
		return c.atomB(c.raw("exists", "", false, lam, n)), c.raw("first", "", true, lam, n)
	}
	// an index that was found is one of those looked at
	some := c.Lt(c.Int(0), n)
	if in := c.restrictLam(lam, some); in != lam {
		return c.First(in, n)
	}
	if a := freeTest(lam.args[1], lam.args[0]); a != nil {
		g := c.atomB(a)
		e1, k1 := c.First(c.restrictLam(lam, g), n)
		e0, k0 := c.First(c.restrictLam(lam, c.Not(g)), n)
		return c.Ite(g, e1, e0), c.Ite(g, k1, k0)
	}
	if c.Restrict(c.Inst(lam, c.Sub(n, c.Int(1))), some) == c.True {
		return some, c.raw("first", "", true, lam, n)
	}
	return c.atomB(c.raw("exists", "", false, lam, n)), c.raw("first", "", true, lam, n)
}

// restrictLam simplifies the body of lam where care holds.
func (c *TermCtx) restrictLam(lam, care *Term) *Term {
	b := c.Restrict(lam.args[1], care)
	if b == lam.args[1] {
		return lam
	}
	return c.lam(lam.args[0], b)
}

// ---------- state

type entry struct {
	holes []*Term
	guard *Term
	val   *Term
	bound []*Term // symbols bound in holes/guard/val
	dom   *Term   // condition on the bound symbols
	mark  *loopMark
	addr  *Term // the address written, if it is a single one
}

// loopMark stands for the writes of the completed iterations of a loop that is
// being summarised.
type loopMark struct {
	kappa *Term
	pats  []*entry // writes of one iteration, in kappa
	name  string
	gen   int
	read  bool // an iteration reads what earlier ones may have written
}

type State struct {
	pc   *Term
	mem  map[*Term]*Term
	logs map[string][]*entry
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, mem: make(map[*Term]*Term, len(s.mem)), logs: make(map[string][]*entry, len(s.logs))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.logs {
		n.logs[k] = v[:len(v):len(v)]
	}
	return n
}

// shape abstracts the index positions of an address.
type shapeInfo struct {
	key   string
	holes []*Term
}

func (ev *Ev) shapeOf(p *Term) *shapeInfo {
	if s, ok := ev.shapeM[p.id]; ok {
		return s
	}
	var holes []*Term
	var b strings.Builder
	var rec func(t *Term)
	rec = func(t *Term) {
		switch t.op {
		case "fld", "ini", "hv", "lockst", "maplen":
			b.WriteString(t.op + ":" + t.aux + "(")
			for _, a := range t.args {
				rec(a)
			}
			b.WriteString(")")
		case "idx", "mapelem", "maphas":
			b.WriteString(t.op + "(")
			rec(t.args[0])
			b.WriteString(")")
			holes = append(holes, t.args[1])
		case "alloc", "mkmap", "fresh", "call", "havf", "clone":
			b.WriteString(t.op + ":" + t.aux)
			b.WriteString("/" + strconv.Itoa(len(t.args)))
			holes = append(holes, t.args...)
		case "mkslice":
			b.WriteString("mks(")
			rec(t.args[1])
			b.WriteString(")")
		default:
			// a slice that grew from a fresh one is known by its beginning
			base := t
			for base.op == "append" || base.op == "appslice" || base.op == "appmap" {
				base = base.args[0]
			}
			if base != t && base.op == "mkslice" && base.args[1].op == "alloc" {
				b.WriteString("app(")
				rec(base)
				b.WriteString(")")
				return
			}
			b.WriteString("#" + strconv.Itoa(t.id))
		}
	}
	rec(p)
	s := &shapeInfo{key: b.String(), holes: holes}
	if len(holes) == 0 {
		s = nil
	}
	ev.shapeM[p.id] = s
	return s
}

// rootOf follows fld/idx to the base object of an address.
func rootOf(p *Term) *Term {
	for p.op == "fld" || p.op == "idx" || p.op == "mapelem" || p.op == "maphas" {
		p = p.args[0]
	}
	return p
}

func (ev *Ev) opaque(t types.Type) bool {
	switch t.String() {
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "google.golang.org/protobuf/internal/impl.MessageState", "google.golang.org/protobuf/runtime/protoimpl.MessageState", "time.Time":
		return true
	}
	return false
}

func (ev *Ev) zero(t types.Type) *Term {
	c := ev.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsNumeric != 0:
			return c.Int(0)
		case u.Info()&types.IsString != 0:
			return c.leaf("str", "")
		case u.Info()&types.IsBoolean != 0:
			return c.False
		}
		return c.Nil
	case *types.Struct:
		if ev.opaque(t) {
			return c.leaf("zero", t.String())
		}
		var names []string
		var vals []*Term
		for i := 0; i < u.NumFields(); i++ {
			names = append(names, u.Field(i).Name())
			vals = append(vals, ev.zero(u.Field(i).Type()))
		}
		return ev.mkStruct(t, names, vals)
	case *types.Array:
		if u.Len() <= 16 {
			vals := make([]*Term, u.Len())
			for i := range vals {
				vals[i] = ev.zero(u.Elem())
			}
			return ev.mkArray(vals)
		}
		return c.leaf("zero", t.String())
	}
	return c.Nil
}

func structName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return "struct"
}

func (ev *Ev) mkStruct(t types.Type, names []string, vals []*Term) *Term {
	key := structName(t) + ";" + strings.Join(names, ";")
	return ev.c.App("struct:"+key, func(x []*Term) *Term { return ev.c.raw("struct", key, false, x...) }, vals...)
}
func (ev *Ev) mkArray(vals []*Term) *Term {
	return ev.c.App("array", func(x []*Term) *Term { return ev.c.raw("array", "", false, x...) }, vals...)
}

func (ev *Ev) typed(t *Term, ty types.Type) *Term {
	if t.typ == nil {
		t.typ = ty
	}
	if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		ev.c.nonNeg[t.id] = true
	}
	return t
}

func (ev *Ev) rawT(op, aux string, ty types.Type, args ...*Term) *Term {
	if isBool(ty) {
		return ev.c.atomB(ev.typed(ev.c.raw(op, aux, false, args...), ty))
	}
	return ev.typed(ev.c.raw(op, aux, isInteger(ty), args...), ty)
}

// sym is a named opaque input.
func (ev *Ev) sym(name string, ty types.Type) *Term {
	if u, ok := ty.Underlying().(*types.Struct); ok && !ev.opaque(ty) {
		var names []string
		var vals []*Term
		for i := 0; i < u.NumFields(); i++ {
			names = append(names, u.Field(i).Name())
			vals = append(vals, ev.sym(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return ev.mkStruct(ty, names, vals)
	}
	return ev.rawT("sym", name, ty)
}

// fresh result symbol for a call site; distinct per enclosing iteration.
func (ev *Ev) fresh(name string, ty types.Type) *Term {
	if u, ok := ty.Underlying().(*types.Struct); ok && !ev.opaque(ty) {
		var names []string
		var vals []*Term
		for i := 0; i < u.NumFields(); i++ {
			names = append(names, u.Field(i).Name())
			vals = append(vals, ev.fresh(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return ev.mkStruct(ty, names, vals)
	}
	return ev.rawT("fresh", name, ty, ev.kappas...)
}

// uapp is an uninterpreted pure function application.
func (ev *Ev) uapp(name string, ty types.Type, args ...*Term) *Term {
	return ev.c.App("u:"+name+":"+ty.String(), func(x []*Term) *Term {
		if u, ok := ty.Underlying().(*types.Struct); ok && !ev.opaque(ty) {
			var names []string
			var vals []*Term
			for i := 0; i < u.NumFields(); i++ {
				names = append(names, u.Field(i).Name())
				vals = append(vals, ev.uapp(name+"."+u.Field(i).Name(), u.Field(i).Type(), x...))
			}
			return ev.mkStruct(ty, names, vals)
		}
		return ev.rawT("call", name, ty, x...)
	}, args...)
}

// ---------- load and store

func (ev *Ev) Load(st *State, p *Term, ty types.Type) *Term {
	c := ev.c
	if p.op == "ite" {
		return c.Ite(c.atomB(p.args[0]), ev.Load(st, p.args[1], ty), ev.Load(st, p.args[2], ty))
	}
	if p == c.Nil {
		return ev.zero(ty)
	}
	if u, ok := ty.Underlying().(*types.Struct); ok && !ev.opaque(ty) {
		var names []string
		var vals []*Term
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			names = append(names, f.Name())
			vals = append(vals, ev.Load(st, c.Fld(p, f.Name()), f.Type()))
		}
		return ev.mkStruct(ty, names, vals)
	}
	if u, ok := ty.Underlying().(*types.Array); ok && u.Len() <= 16 {
		vals := make([]*Term, u.Len())
		for i := range vals {
			vals[i] = ev.Load(st, c.Idx(p, c.Int(int64(i))), u.Elem())
		}
		return ev.mkArray(vals)
	}
	ev.keyTyp[p] = ty
	sh := ev.shapeOf(p)
	if sh == nil {
		if v, ok := st.mem[p]; ok {
			return v
		}
		return ev.def(st, p, ty)
	}
	if ev.direct(p, sh) {
		if v, ok := st.mem[p]; ok {
			return v
		}
	} else {
		ev.flushShape(st, sh.key)
	}
	log := st.logs[sh.key]
	if len(log) == 0 {
		return ev.def(st, p, ty)
	}
	ev.shapeTyp[sh.key] = ty
	return ev.loadLog(st, log, len(log)-1, sh, p, ty)
}

func (ev *Ev) loadLog(st *State, log []*entry, n int, sh *shapeInfo, p *Term, ty types.Type) *Term {
	c := ev.c
	for i := n; i >= 0; i-- {
		e := log[i]
		if e.mark != nil {
			if v, skip := ev.loadMark(st, log, i, e.mark, sh, p, ty); !skip {
				return v
			}
			continue
		}
		cond, val := ev.match(e, sh.holes, ty)
		if cond == c.False {
			continue
		}
		if cond == c.True {
			return val
		}
		return c.Ite(cond, val, ev.loadLog(st, log, i-1, sh, p, ty))
	}
	return ev.def(st, p, ty)
}

// match decides when the write e reaches address holes, and with which value.
func (ev *Ev) match(e *entry, holes []*Term, ty types.Type) (*Term, *Term) {
	c := ev.c
	if len(e.bound) == 0 {
		cond := e.guard
		for i := range holes {
			cond = c.And(ev.eqHole(e.holes[i], holes[i]), cond)
			if cond == c.False {
				return cond, nil
			}
		}
		return cond, e.val
	}
	sub := map[int]*Term{}
	left := map[int]bool{}
	for _, b := range e.bound {
		left[b.id] = true
	}
	var eqs [][2]*Term
	for i, h := range e.holes {
		solved := false
		if len(left) > 0 {
			if left[h.id] {
				sub[h.id] = holes[i]
				delete(left, h.id)
				solved = true
			} else if h.op == "mapkey" && left[h.args[1].id] {
				sub[h.args[1].id] = ev.keyIdx(h.args[0], holes[i], h.args[2:]...)
				delete(left, h.args[1].id)
				solved = true
			} else if h.op == "mapkey" && h.args[1].op == "poly" {
				// the position is offset
				for _, m := range h.args[1].monos {
					if len(m.fs) == 1 && left[m.fs[0].id] && m.c.Cmp(big.NewRat(1, 1)) == 0 {
						b := m.fs[0]
						if rest := c.Sub(h.args[1], b); !rest.contains(b) {
							sub[b.id] = c.Sub(ev.keyIdx(h.args[0], holes[i], h.args[2:]...), rest)
							delete(left, b.id)
							solved = true
							break
						}
					}
				}
			} else if h.op == "poly" {
				for _, m := range h.monos {
					if len(m.fs) == 1 && left[m.fs[0].id] && m.c.IsInt() && (m.c.Num().Int64() == 1 || m.c.Num().Int64() == -1) {
						b := m.fs[0]
						rest := c.Sub(h, c.Mul(c.numRat(m.c, true), b))
						if rest.contains(b) {
							continue
						}
						v := c.Mul(c.Sub(holes[i], rest), c.numRat(m.c, true))
						sub[b.id] = v
						delete(left, b.id)
						solved = true
						break
					}
				}
			}
		}
		if !solved {
			eqs = append(eqs, [2]*Term{h, holes[i]})
		}
	}
	// a later substitution may mention other bound symbols; resolve once more
	for k, v := range sub {
		sub[k] = c.Subst(v, sub)
	}
	if len(left) == 1 {
		for _, b := range e.bound {
			if !left[b.id] {
				continue
			}
			if at := ev.fewValues(c.And(c.Subst(e.dom, sub), c.Subst(e.guard, sub)), b); at != nil {
				cond, val := c.False, (*Term)(nil)
				for _, v := range at {
					sub[b.id] = v
					x := e.closed(c, sub, eqs)
					if y := c.Subst(c.Subst(e.val, sub), sub); val == nil {
						val = y
					} else {
						val = c.Ite(x, y, val)
					}
					cond = c.Or(cond, x)
				}
				return cond, val
			}
		}
	}
	if len(left) > 0 {
		for _, b := range e.bound {
			if left[b.id] {
				// written by every iteration of an inner loop: unknown which
				cond := c.atomB(ev.rawT("hav", "unk:"+ev.name(e), types.Typ[types.Bool], holes...))
				open := func(t *Term) bool {
					for _, b := range e.bound {
						if left[b.id] && t.contains(b) {
							return true
						}
					}
					return false
				}
				for _, t := range []*Term{e.guard, e.dom} {
					if t != nil && !open(t) {
						cond = c.And(cond, c.Subst(t, sub))
					}
				}
				return cond, ev.rawT("havf", "unkval:"+ev.name(e), ty, holes...)
			}
		}
	}
	cond := e.closed(c, sub, eqs)
	if cond == c.False {
		return cond, nil
	}
	return cond, c.Subst(e.val, sub)
}

// fewValues lists the values b can have under cond, if they are all small constants.
func (ev *Ev) fewValues(cond, b *Term) []*Term {
	c := ev.c
	const most = 8
	if ev.feasible(c.And(cond, c.Lt(c.Int(most-1), b))) {
		return nil
	}
	at := []*Term{}
	for v := int64(0); v < most; v++ {
		if c.Subst(cond, map[int]*Term{b.id: c.Int(v)}) != c.False {
			at = append(at, c.Int(v))
		}
	}
	return at
}

// closed is the condition under which the entry is one written for the given
// values of its bound symbols.
func (e *entry) closed(c *TermCtx, sub map[int]*Term, eqs [][2]*Term) *Term {
	cond := c.True
	for _, b := range e.bound {
		// bound symbols are natural numbers
		if v := sub[b.id]; v != nil && v.isInt && (v.op == "poly" || v.isConstNum()) {
			cond = c.And(cond, c.Le(c.Int(0), v))
		}
	}
	cond = c.And(cond, c.Subst(e.dom, sub), c.Subst(e.guard, sub))
	for _, q := range eqs {
		if a := c.Subst(q[0], sub); a != q[1] {
			cond = c.And(cond, c.EqAny(a, q[1]))
		}
	}
	return cond
}

// keyIdx is the position of key k in the iteration order of m; it is in range
// exactly when m has k.
func (ev *Ev) keyIdx(m, k *Term, keys ...*Term) *Term {
	return ev.c.App("keyidx", func(x []*Term) *Term { return ev.c.KeyIdx(x...) }, append([]*Term{m, k}, keys...)...)
}

func (ev *Ev) eqHole(a, b *Term) *Term {
	if a == b {
		return ev.c.True
	}
	return ev.c.EqAny(a, b)
}

func (ev *Ev) name(e *entry) string {
	s := ""
	for _, h := range e.holes {
		s += strconv.Itoa(h.id) + "."
	}
	return s + strconv.Itoa(e.val.id)
}

// loadMark: does an earlier iteration of the loop in progress reach p?
func (ev *Ev) loadMark(st *State, log []*entry, i int, m *loopMark, sh *shapeInfo, p *Term, ty types.Type) (*Term, bool) {
	c := ev.c
	all := true
	for _, pe := range m.pats {
		if !ev.notYetWritten(pe, m.kappa, sh.holes) {
			all = false
		}
	}
	if all {
		return nil, true
	}
	m.read = true
	v := ev.rawT("havf", "loop:"+m.name+":"+sh.key, ty, append([]*Term{m.kappa}, sh.holes...)...)
	_ = c
	return v, false
}

func (ev *Ev) notYetWritten(pe *entry, kappa *Term, holes []*Term) bool {
	c := ev.c
	for j, ph := range pe.holes {
		if !ph.contains(kappa) {
			if ph.isConstNum() && holes[j].isConstNum() && ph != holes[j] {
				return true
			}
			continue
		}
		if ph.op == "ite" || holes[j].op == "ite" {
			continue
		}
		// coefficient of kappa
		next := c.Subst(ph, map[int]*Term{kappa.id: c.Add(kappa, c.Int(1))})
		step := c.Sub(next, ph)
		if !step.isConstNum() || step.ratVal().Sign() == 0 {
			if ph == holes[j] && ph.op == "mapkey" {
				return true // map keys are visited once
			}
			continue
		}
		d := c.Sub(holes[j], ph)
		if d.isConstNum() && d.ratVal().Sign()*step.ratVal().Sign() >= 0 {
			return true
		}
		if d.isConstNum() {
			// constant distance back: fine only if no iteration hits it exactly
			continue
		}
	}
	return false
}

func (ev *Ev) def(st *State, p *Term, ty types.Type) *Term {
	c := ev.c
	if p.op == "lockst" {
		return c.leaf("str", "U")
	}
	if p.op == "maphas" {
		m := p.args[0]
		switch m.op {
		case "mkmap", "nil":
			return c.False
		}
		if ev.iniHas != nil {
			if v := ev.iniHas(m, p.args[1]); v != nil {
				return v
			}
		}
		return ev.rawT("has", "", types.Typ[types.Bool], m, p.args[1])
	}
	root := rootOf(p)
	if root.op == "alloc" || root.op == "mkmap" {
		return ev.defAlloc(st, st.mem[c.raw("havmark", "", false, root)], p, ty)
	}
	if root.op == "clone" {
		return ev.Load(st, reroot(c, p, root.args[0]), ty)
	}
	if v := ev.elemOf(st, p, ty); v != nil {
		return v
	}
	return ev.iniT(p, ty)
}

// defAlloc is the content of a local object that was not written: zero unless
// unknown code had access to it.
func (ev *Ev) defAlloc(st *State, mark, p *Term, ty types.Type) *Term {
	if mark == nil || mark.op == "str" && mark.aux == "none" {
		return ev.zero(ty)
	}
	if mark.op == "ite" {
		return ev.c.Ite(ev.c.atomB(mark.args[0]), ev.defAlloc(st, mark.args[1], p, ty), ev.defAlloc(st, mark.args[2], p, ty))
	}
	return ev.rawT("hv", mark.aux, ty, p)
}

func reroot(c *TermCtx, p, r *Term) *Term {
	switch p.op {
	case "fld":
		return c.Fld(reroot(c, p.args[0], r), p.aux)
	case "idx":
		return c.Idx(reroot(c, p.args[0], r), p.args[1])
	case "mapelem", "maphas":
		return c.raw(p.op, "", false, reroot(c, p.args[0], r), p.args[1])
	}
	return r
}

func (ev *Ev) iniT(p *Term, ty types.Type) *Term {
	if u, ok := ty.Underlying().(*types.Struct); ok && !ev.opaque(ty) {
		var names []string
		var vals []*Term
		for i := 0; i < u.NumFields(); i++ {
			names = append(names, u.Field(i).Name())
			vals = append(vals, ev.iniT(ev.c.Fld(p, u.Field(i).Name()), u.Field(i).Type()))
		}
		return ev.mkStruct(ty, names, vals)
	}
	if ev.iniVal != nil {
		if v := ev.iniVal(p, ty); v != nil {
			return v
		}
	}
	t := ev.rawT("ini", "", ty, p)
	if p.op == "global" && types.Identical(ty, types.Universe.Lookup("error").Type()) {
		ev.c.nonNil[t.id] = true
	}
	if ev.iniHook != nil {
		ev.iniHook(t, p, ty)
	}
	return t
}

func functional(s *Term) bool {
	switch s.op {
	case "nil", "append", "appslice", "appmap":
		return true
	}
	return false
}

// elemOf resolves elements of functional slices (append, ...).
func (ev *Ev) elemOf(st *State, p *Term, ty types.Type) *Term {
	c := ev.c
	// steps into an element: fields, and indices of arrays held in elements
	var path []*Term
	q := p
	for !(q.op == "idx" && functional(q.args[0])) {
		if q.op != "fld" && q.op != "idx" {
			return nil
		}
		path = append(path, q)
		q = q.args[0]
	}
	s, i := q.args[0], q.args[1]
	fields := func(v *Term) *Term {
		for k := len(path) - 1; k >= 0; k-- {
			if path[k].op == "idx" {
				v = c.ArrIndex(v, path[k].args[1], ev, ty)
			} else {
				v = c.Field(v, path[k].aux)
			}
		}
		if v.op != "ite" && v.typ == nil {
			v.typ = ty
		}
		return v
	}
	redirect := func(s2, i2 *Term) *Term {
		a := c.Idx(s2, i2)
		for k := len(path) - 1; k >= 0; k-- {
			if path[k].op == "idx" {
				a = c.Idx(a, path[k].args[1])
			} else {
				a = c.Fld(a, path[k].aux)
			}
		}
		return ev.Load(st, a, ty)
	}
	switch s.op {
	case "nil":
		return ev.zero(ty)
	case "append":
		base := s.args[0]
		n := c.Len(base)
		r := func() *Term { return redirect(base, i) }
		var out *Term
		for k := len(s.args) - 1; k >= 1; k-- {
			v := fields(s.args[k])
			if out == nil {
				out = v
			} else {
				out = c.Ite(c.Lt(i, c.Add(n, c.Int(int64(k)))), v, out)
			}
		}
		in := c.Lt(i, n)
		if in == c.False {
			return out
		}
		return c.Ite(in, r(), out)
	case "appslice":
		n := c.Len(s.args[0])
		in := c.Lt(i, n)
		var a, b *Term
		if in != c.False {
			a = redirect(s.args[0], i)
		}
		if in != c.True {
			b = redirect(s.args[1], c.Sub(i, n))
		}
		if a == nil {
			return b
		}
		if b == nil {
			return a
		}
		return c.Ite(in, a, b)
	case "appmap":
		n := c.Len(s.args[0])
		in := c.Lt(i, n)
		v := fields(c.Inst(s.args[2], c.Sub(i, n)))
		if in == c.False || s.args[0].op == "nil" || n.isConstNum() && n.ratVal().Sign() == 0 {
			return v
		}
		return c.Ite(in, redirect(s.args[0], i), v)
	}
	return nil
}

func (ev *Ev) Store(st *State, p, v *Term, ty types.Type) {
	ev.storeG(st, p, v, ty, ev.c.True)
}

func (ev *Ev) storeG(st *State, p, v *Term, ty types.Type, g *Term) {
	c := ev.c
	if g == c.False {
		return
	}
	if p.op == "ite" {
		a := c.atomB(p.args[0])
		ev.storeG(st, p.args[1], v, ty, c.And(g, a))
		ev.storeG(st, p.args[2], v, ty, c.And(g, c.Not(a)))
		return
	}
	if p == c.Nil {
		return
	}
	if u, ok := ty.Underlying().(*types.Struct); ok && !ev.opaque(ty) {
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			ev.storeG(st, c.Fld(p, f.Name()), c.Field(v, f.Name()), f.Type(), g)
		}
		return
	}
	if u, ok := ty.Underlying().(*types.Array); ok && u.Len() <= 16 {
		for i := 0; i < int(u.Len()); i++ {
			ev.storeG(st, c.Idx(p, c.Int(int64(i))), c.ArrIndex(v, c.Int(int64(i)), ev, u.Elem()), u.Elem(), g)
		}
		return
	}
	ev.keyTyp[p] = ty
	sh := ev.shapeOf(p)
	if sh == nil {
		if g != c.True {
			old, ok := st.mem[p]
			if !ok {
				old = ev.def(st, p, ty)
			}
			v = c.Ite(g, v, old)
		}
		st.mem[p] = v
		return
	}
	ev.shapeTyp[sh.key] = ty
	ev.shapeEx[sh.key] = p
	if ev.direct(p, sh) {
		if g != c.True {
			v = c.Ite(g, v, ev.Load(st, p, ty))
		}
		if _, ok := st.mem[p]; !ok {
			known := false
			for _, k := range ev.directs[sh.key] {
				known = known || k == p
			}
			if !known {
				ev.directs[sh.key] = append(ev.directs[sh.key], p)
			}
		}
		st.mem[p] = v
		return
	}
	ev.flushShape(st, sh.key)
	log := st.logs[sh.key]
	if g == c.True {
		// drop the trailing writes to the very same address
		for len(log) > 0 {
			l := log[len(log)-1]
			if l.mark != nil || len(l.bound) > 0 || !sameHoles(l.holes, sh.holes) {
				break
			}
			log = log[:len(log)-1]
		}
	}
	st.logs[sh.key] = append(log[:len(log):len(log)], &entry{holes: sh.holes, guard: g, val: v, addr: p})
}

// direct: p lies in an object allocated by the iterations being evaluated, so
// that it is one fixed location for the time being.
func (ev *Ev) direct(p *Term, sh *shapeInfo) bool {
	if ev.pins[p] > 0 {
		return true
	}
	for p.op == "fld" {
		p = p.args[0]
	}
	if p.op != "alloc" || len(p.args) == 0 || len(sh.holes) != len(p.args) || len(p.args) > len(ev.kappas) {
		return false
	}
	for i, a := range p.args {
		if a != ev.kappas[i] {
			return false
		}
	}
	return true
}

// flushShape turns the fixed locations of a shape into log entries.
func (ev *Ev) flushShape(st *State, key string) {
	for _, k := range ev.directs[key] {
		ev.flushKey(st, k)
	}
}

func (ev *Ev) flushKey(st *State, k *Term) {
	v, ok := st.mem[k]
	if !ok {
		return
	}
	sh := ev.shapeOf(k)
	delete(st.mem, k)
	log := st.logs[sh.key]
	for len(log) > 0 {
		l := log[len(log)-1]
		if l.mark != nil || len(l.bound) > 0 || !sameHoles(l.holes, sh.holes) {
			break
		}
		log = log[:len(log)-1]
	}
	st.logs[sh.key] = append(log[:len(log):len(log)], &entry{holes: sh.holes, guard: ev.c.True, val: v, addr: k})
}

// flushIter ends iteration kappa: its objects become log entries.
func (ev *Ev) flushIter(st *State, kappa *Term) {
	var ks []*Term
	for k := range st.mem {
		if k.contains(kappa) && rootOf(k).op == "alloc" && (k.op == "alloc" || k.op == "fld") && ev.shapeOf(k) != nil {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		ev.flushKey(st, k)
	}
}

func sameHoles(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *TermCtx) ArrIndex(a, i *Term, ev *Ev, ty types.Type) *Term {
	return c.App("arrindex:"+ty.String(), func(x []*Term) *Term {
		a, i := x[0], x[1]
		if a.op == "array" {
			if i.isConstNum() {
				n := int(i.ratVal().Num().Int64())
				if n >= 0 && n < len(a.args) {
					return a.args[n]
				}
			}
			r := a.args[len(a.args)-1]
			for k := len(a.args) - 2; k >= 0; k-- {
				r = c.Ite(c.EqNum(i, c.Int(int64(k))), a.args[k], r)
			}
			return r
		}
		return ev.rawT("arrelem", "", ty, a, i)
	}, a, i)
}

// ---------- merging

func (ev *Ev) merge(ss []*State) *State {
	var r *State
	for _, s := range ss {
		if s == nil || s.pc == ev.c.False {
			continue
		}
		if r == nil {
			r = s
			continue
		}
		r = ev.merge2(r, s)
	}
	return r
}

func (ev *Ev) merge2(a, b *State) *State {
	c := ev.c
	u := c.Or(a.pc, b.pc)
	g := c.Restrict(a.pc, u)
	ng := c.Not(g)
	r := &State{pc: u, mem: make(map[*Term]*Term, len(a.mem)), logs: make(map[string][]*entry, len(a.logs))}
	for k, va := range a.mem {
		vb, ok := b.mem[k]
		if !ok {
			vb = ev.defKey(b, k)
		}
		r.mem[k] = c.Ite(g, va, vb)
	}
	for k, vb := range b.mem {
		if _, ok := a.mem[k]; !ok {
			r.mem[k] = c.Ite(g, ev.defKey(a, k), vb)
		}
	}
	for k, la := range a.logs {
		lb := b.logs[k]
		i := 0
		for i < len(la) && i < len(lb) && la[i] == lb[i] {
			i++
		}
		if i == len(la) && i == len(lb) {
			r.logs[k] = la
			continue
		}
		out := append([]*entry{}, la[:i]...)
		// pair up writes to the same address
		ra, rb := la[i:], lb[i:]
		for len(ra) > 0 && len(rb) > 0 && ra[0].mark == nil && rb[0].mark == nil && len(ra[0].bound) == 0 && len(rb[0].bound) == 0 && sameHoles(ra[0].holes, rb[0].holes) && ra[0].guard == c.True && rb[0].guard == c.True {
			out = append(out, &entry{holes: ra[0].holes, guard: c.True, val: c.Ite(g, ra[0].val, rb[0].val), addr: ra[0].addr})
			ra, rb = ra[1:], rb[1:]
		}
		for _, e := range ra {
			out = append(out, e.guarded(c, g))
		}
		for _, e := range rb {
			out = append(out, e.guarded(c, ng))
		}
		r.logs[k] = out
	}
	for k, lb := range b.logs {
		if _, ok := a.logs[k]; !ok {
			var out []*entry
			for _, e := range lb {
				out = append(out, e.guarded(c, ng))
			}
			r.logs[k] = out
		}
	}
	return r
}

func (e *entry) guarded(c *TermCtx, g *Term) *entry {
	if e.mark != nil {
		return e
	}
	n := *e
	n.guard = c.And(g, e.guard)
	return &n
}

func (ev *Ev) defKey(st *State, k *Term) *Term {
	switch k.op {
	case "lockst":
		return ev.c.leaf("str", "U")
	case "events":
		return ev.c.Nil
	case "havmark":
		return ev.c.leaf("str", "none")
	}
	ty := ev.keyTyp[k]
	if ty == nil {
		panic(tooComplex{"untyped key " + k.String()})
	}
	if sh := ev.shapeOf(k); sh != nil && len(st.logs[sh.key]) > 0 {
		return ev.loadLog(st, st.logs[sh.key], len(st.logs[sh.key])-1, sh, k, ty)
	}
	return ev.def(st, k, ty)
}
