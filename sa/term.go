package main

// Terms are hash-consed value numbers. A term is either a leaf/operator
// application or an "ite" node over an atom; ite nodes are kept at the top of
// a term (operators distribute over them) and ordered by atom number, so a
// term is a multi-terminal decision diagram and two gated values that are
// equal for every outcome of the branch conditions are the same node.

import (
	"fmt"
	"go/types"
	"math/big"
	"slices"
	"sort"
	"strconv"
	"strings"
)

type mono struct {
	c  *big.Rat
	fs []*Term // sorted by id, repeated for powers; empty = constant
}

type Term struct {
	id    int
	op    string
	aux   string
	args  []*Term
	isInt bool
	monos []mono     // op == "poly" (includes constants)
	typ   types.Type // for "nil"-able and zero-dependent ops; informational
	syms  map[int]bool
	size  int
	bv    int8 // contains variables bound by lists and searches: 1 yes, 2 no, 0 not known yet
}

type TermCtx struct {
	peeled    map[int]int            // searches whose first places are decided: see First
	splitSums bool                   // sums and searches are normalised further, along tests that do not depend on the index
	hasKey    func(m, k *Term) *Term // a map, as it was first, has a key
	tab       map[string]*Term
	n         int
	True      *Term
	False     *Term
	Nil       *Term
	iteM      map[[3]int]*Term
	resM      map[[2]int]*Term
	opM       map[string]*Term
	limit     int
	// facts about opaque terms
	nonNeg  map[int]bool  // integer/float term known >= 0
	upper   map[int]*Term // term known <= upper
	lower   map[int]*Term // term known >= lower
	nonNil  map[int]bool  // reference term known non-nil
	lenZero map[int]bool
	// how to rebuild applications of library functions with a normal form
	refold map[string]func(a []*Term) *Term
}

type tooComplex struct{ why string }

func NewTermCtx() *TermCtx {
	c := &TermCtx{refold: map[string]func(a []*Term) *Term{}, tab: map[string]*Term{}, iteM: map[[3]int]*Term{}, resM: map[[2]int]*Term{}, opM: map[string]*Term{}, limit: 4000000,
		nonNeg: map[int]bool{}, upper: map[int]*Term{}, lower: map[int]*Term{}, nonNil: map[int]bool{}, lenZero: map[int]bool{}}
	c.True = c.intern(&Term{op: "true"})
	c.False = c.intern(&Term{op: "false"})
	c.Nil = c.intern(&Term{op: "nil"})
	return c
}

func (c *TermCtx) intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.aux)
	if t.isInt {
		b.WriteString("|i")
	}
	for _, a := range t.args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, m := range t.monos {
		b.WriteByte('+')
		b.WriteString(m.c.RatString())
		for _, f := range m.fs {
			b.WriteByte('*')
			b.WriteString(strconv.Itoa(f.id))
		}
	}
	if spent.Load() {
		panic(tooComplex{"time or memory limit"})
	}
	k := b.String()
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.n++
	if c.n > c.limit {
		panic(tooComplex{"term limit"})
	}
	t.id = c.n
	t.size = 1
	var sy map[int]bool
	add := func(a *Term) {
		t.size += a.size
		if a.op == "kappa" || a.op == "hav" || a.op == "bv" {
			if sy == nil {
				sy = map[int]bool{}
			}
			sy[a.id] = true
		}
		for s := range a.syms {
			if sy == nil {
				sy = map[int]bool{}
			}
			sy[s] = true
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.monos {
		for _, f := range m.fs {
			add(f)
		}
	}
	t.syms = sy
	c.tab[k] = t
	return t
}

func (t *Term) isIte() bool { return t.op == "ite" }

// contains reports whether s (a kappa/hav/bv symbol) occurs in t.
func (t *Term) contains(s *Term) bool { return t == s || t.syms[s.id] }

func (c *TermCtx) leaf(op, aux string) *Term { return c.intern(&Term{op: op, aux: aux}) }

// raw application without distribution (binders, ite-free args)
func (c *TermCtx) raw(op, aux string, isInt bool, args ...*Term) *Term {
	return c.intern(&Term{op: op, aux: aux, args: args, isInt: isInt})
}

// ---------- decision diagrams

func topAtom(ts ...*Term) *Term {
	var a *Term
	for _, t := range ts {
		if t.op == "ite" && (a == nil || t.args[0].id < a.id) {
			a = t.args[0]
		}
	}
	return a
}

func cof(t, atom *Term, v bool) *Term {
	if t.op == "ite" && t.args[0] == atom {
		if v {
			return t.args[1]
		}
		return t.args[2]
	}
	return t
}

func (c *TermCtx) mkIte(atom, a, b *Term) *Term {
	if a == b {
		return a
	}
	if c.splitSums && atom.op == "eq0" && a.op != "ite" && b.op != "ite" {
		// the value for zero is what the other case gives for zero
		if ms := c.monosOf(atom.args[0]); len(ms) == 1 && len(ms[0].fs) == 1 && b.contains(ms[0].fs[0]) {
			v := ms[0].fs[0]
			if b == v && a.isConstNum() && a.ratVal().Sign() == 0 || c.fromMonos(c.monosOf(b), b.isInt) == b && b.op == "poly" && c.atZero(b, v) == a {
				return b
			}
		}
	}
	return c.intern(&Term{op: "ite", args: []*Term{atom, a, b}, isInt: a.isInt || b.isInt})
}

// atZero is the linear value p for v = 0.
func (c *TermCtx) atZero(p, v *Term) *Term {
	var out []mono
	for _, m := range c.monosOf(p) {
		if !slices.Contains(m.fs, v) {
			out = append(out, m)
		}
	}
	return c.fromMonos(out, p.isInt)
}

// atomB turns an atom (boolean leaf term) into its diagram.
func (c *TermCtx) atomB(a *Term) *Term {
	if a == c.True || a == c.False || a.op == "ite" {
		return a
	}
	return c.mkIte(a, c.True, c.False)
}

func (c *TermCtx) Ite(b, x, y *Term) *Term {
	if b == c.True {
		return x
	}
	if b == c.False {
		return y
	}
	if x == y {
		return x
	}
	if b.op != "ite" {
		b = c.atomB(b)
	}
	k := [3]int{b.id, x.id, y.id}
	if r, ok := c.iteM[k]; ok {
		return r
	}
	a := topAtom(b, x, y)
	r := c.mkIte(a, c.Ite(cof(b, a, true), cof(x, a, true), cof(y, a, true)), c.Ite(cof(b, a, false), cof(x, a, false), cof(y, a, false)))
	c.iteM[k] = r
	return r
}

func (c *TermCtx) Not(a *Term) *Term { return c.Ite(a, c.False, c.True) }
func (c *TermCtx) And(a *Term, bs ...*Term) *Term {
	for _, b := range bs {
		a = c.Ite(a, b, c.False)
	}
	return a
}
func (c *TermCtx) Or(a *Term, bs ...*Term) *Term {
	for _, b := range bs {
		a = c.Ite(a, c.True, b)
	}
	return a
}

// Restrict simplifies f assuming care (care-set restriction).
func (c *TermCtx) Restrict(f, care *Term) *Term {
	if care == c.True || care == c.False || f.op != "ite" {
		return f
	}
	if care.op != "ite" {
		return f
	}
	k := [2]int{f.id, care.id}
	if r, ok := c.resM[k]; ok {
		return r
	}
	a := topAtom(f, care)
	c1, c0 := cof(care, a, true), cof(care, a, false)
	f1, f0 := cof(f, a, true), cof(f, a, false)
	var r *Term
	switch {
	case f1 == f0: // f does not test a here
		r = c.Restrict(f, c.Or(c1, c0))
	case c1 == c.False:
		r = c.Restrict(f0, c0)
	case c0 == c.False:
		r = c.Restrict(f1, c1)
	default:
		r = c.mkIteSafe(a, c.Restrict(f1, c1), c.Restrict(f0, c0))
	}
	c.resM[k] = r
	return r
}

func (c *TermCtx) mkIteSafe(a, x, y *Term) *Term {
	ta := topAtom(x, y)
	if ta != nil && ta.id <= a.id {
		return c.Ite(c.atomB(a), x, y)
	}
	return c.mkIte(a, x, y)
}

// App builds op(args) distributing over ite arguments; leafFn builds the
// ite-free case.
func (c *TermCtx) App(key string, leafFn func(args []*Term) *Term, args ...*Term) *Term {
	a := topAtom(args...)
	if a == nil {
		return leafFn(args)
	}
	var b strings.Builder
	b.WriteString(key)
	for _, x := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x.id))
	}
	k := b.String()
	if r, ok := c.opM[k]; ok {
		return r
	}
	t := make([]*Term, len(args))
	f := make([]*Term, len(args))
	for i, x := range args {
		t[i], f[i] = cof(x, a, true), cof(x, a, false)
	}
	r := c.mkIteSafe(a, c.App(key, leafFn, t...), c.App(key, leafFn, f...))
	c.opM[k] = r
	return r
}

// ---------- numbers

func (c *TermCtx) numRat(r *big.Rat, isInt bool) *Term {
	t := &Term{op: "poly", isInt: r.IsInt()}
	if r.Sign() != 0 {
		t.monos = []mono{{c: r}}
	}
	return c.intern(t)
}
func (c *TermCtx) Int(n int64) *Term { return c.numRat(new(big.Rat).SetInt64(n), true) }

func (t *Term) isConstNum() bool {
	return t.op == "poly" && (len(t.monos) == 0 || (len(t.monos) == 1 && len(t.monos[0].fs) == 0))
}
func (t *Term) ratVal() *big.Rat {
	if len(t.monos) == 0 {
		return new(big.Rat)
	}
	return t.monos[0].c
}

func (c *TermCtx) monosOf(t *Term) []mono {
	if t.op == "poly" {
		return t.monos
	}
	return []mono{{c: big.NewRat(1, 1), fs: []*Term{t}}}
}

func fsKey(fs []*Term) string {
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(strconv.Itoa(f.id))
		b.WriteByte(',')
	}
	return b.String()
}

func (c *TermCtx) fromMonos(ms []mono, isInt bool) *Term {
	acc := map[string]*mono{}
	for _, m := range ms {
		k := fsKey(m.fs)
		if x, ok := acc[k]; ok {
			x.c = new(big.Rat).Add(x.c, m.c)
		} else {
			mm := m
			acc[k] = &mm
		}
	}
	var out []mono
	for _, m := range acc {
		if m.c.Sign() != 0 {
			out = append(out, *m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return lessFs(out[i].fs, out[j].fs) })
	if len(out) > 400 {
		panic(tooComplex{"polynomial"})
	}
	if len(out) == 1 && len(out[0].fs) == 1 && out[0].c.Cmp(big.NewRat(1, 1)) == 0 {
		return out[0].fs[0]
	}
	isI := true
	for _, m := range out {
		if !m.c.IsInt() {
			isI = false
		}
		for _, f := range m.fs {
			if !f.isInt {
				isI = false
			}
		}
	}
	return c.intern(&Term{op: "poly", isInt: isI, monos: out})
}

// constant term sorts last
func lessFs(a, b []*Term) bool {
	if len(a) == 0 || len(b) == 0 {
		return len(a) > len(b)
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return len(a) < len(b)
}

func (c *TermCtx) Add(a, b *Term) *Term { return c.lin(a, b, 1) }
func (c *TermCtx) Sub(a, b *Term) *Term { return c.lin(a, b, -1) }
func (c *TermCtx) lin(a, b *Term, s int64) *Term {
	return c.App(fmt.Sprintf("lin%d", s), func(x []*Term) *Term {
		ms := append([]mono{}, c.monosOf(x[0])...)
		for _, m := range c.monosOf(x[1]) {
			ms = append(ms, mono{new(big.Rat).Mul(m.c, big.NewRat(s, 1)), m.fs})
		}
		return c.fromMonos(ms, x[0].isInt || x[1].isInt)
	}, a, b)
}
func (c *TermCtx) Neg(a *Term) *Term { return c.Sub(c.numRat(new(big.Rat), a.isInt), a) }
func (c *TermCtx) Mul(a, b *Term) *Term {
	return c.App("mul", func(x []*Term) *Term {
		var ms []mono
		for _, m := range c.monosOf(x[0]) {
			for _, n := range c.monosOf(x[1]) {
				fs := append(append([]*Term{}, m.fs...), n.fs...)
				sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
				ms = append(ms, mono{new(big.Rat).Mul(m.c, n.c), fs})
			}
		}
		return c.fromMonos(ms, x[0].isInt && x[1].isInt)
	}, a, b)
}

func (c *TermCtx) FDiv(a, b *Term) *Term {
	return c.App("fdiv", func(x []*Term) *Term {
		if x[1].isConstNum() && x[1].ratVal().Sign() != 0 {
			return c.Mul(x[0], c.numRat(new(big.Rat).Inv(x[1].ratVal()), false))
		}
		inv := c.raw("inv", "", false, x[1])
		return c.Mul(x[0], inv)
	}, a, b)
}

func (c *TermCtx) IDiv(a, b *Term) *Term {
	return c.App("idiv", func(x []*Term) *Term {
		if x[0].isConstNum() && x[1].isConstNum() && x[1].ratVal().Sign() != 0 {
			q := new(big.Int).Quo(x[0].ratVal().Num(), x[1].ratVal().Num())
			return c.numRat(new(big.Rat).SetInt(q), true)
		}
		if x[1].isConstNum() && x[1].ratVal().Cmp(big.NewRat(1, 1)) == 0 {
			return x[0]
		}
		if x[0].isConstNum() && x[0].ratVal().Sign() == 0 {
			return x[0]
		}
		return c.raw("idiv", "", true, x...)
	}, a, b)
}

// IMod is represented as a - b*(a/b), which is its definition.
func (c *TermCtx) IMod(a, b *Term) *Term {
	return c.Sub(a, c.Mul(b, c.IDiv(a, b)))
}

// cmp0 builds the diagram for p <= 0 (strict: p < 0).
func (c *TermCtx) cmp0(p *Term, strict bool) *Term {
	return c.App(fmt.Sprintf("cmp%v", strict), func(x []*Term) *Term { return c.cmpLeaf(x[0], strict) }, p)
}

// KeyIdx is the position of key k in the iteration order of m (with the given
// set of keys, if m was written to).
func (c *TermCtx) KeyIdx(x ...*Term) *Term {
	if k := x[1]; k.op == "mapkey" && k.args[0] == x[0] && len(k.args) == len(x) && (len(x) == 2 || k.args[2] == x[2]) {
		return k.args[1]
	}
	return c.raw("keyidx", "", true, x...)
}

// keyInRange: the position of a key is below the number of keys exactly when
// the map has it.
func (c *TermCtx) keyInRange(ms []mono) *Term {
	one := func(m mono) *Term {
		if len(m.fs) == 1 {
			return m.fs[0]
		}
		return nil
	}
	var idx, n *Term
	var k, sign int64
	for _, m := range ms {
		if !m.c.IsInt() {
			return nil
		}
		f := one(m)
		switch {
		case len(m.fs) == 0:
			k = m.c.Num().Int64()
		case f != nil && f.op == "keyidx" && idx == nil:
			idx, sign = f, m.c.Num().Int64()
		case f != nil && f.op == "maplen" && f.aux == "" && n == nil:
			n = f
			if s := m.c.Num().Int64(); s != 1 && s != -1 {
				return nil
			}
		default:
			return nil
		}
	}
	if idx == nil || n == nil || len(ms) != 2 && len(ms) != 3 || idx.args[0] != n.args[0] || len(idx.args) != len(n.args)+1 {
		return nil
	}
	if len(n.args) == 2 && idx.args[2] != n.args[1] {
		return nil
	}
	var has *Term
	if len(n.args) == 2 {
		has = c.Inst(n.args[1], idx.args[1])
	} else if c.hasKey != nil {
		has = c.hasKey(idx.args[0], idx.args[1])
	}
	switch {
	case has == nil:
		return nil
	case sign == 1 && k == 1: // idx - n + 1 <= 0
		return has
	case sign == -1 && k == 0: // n - idx <= 0
		return c.Not(has)
	}
	return nil
}

func (c *TermCtx) cmpLeaf(p *Term, strict bool) *Term {
	if p.isConstNum() {
		s := p.ratVal().Sign()
		if s < 0 || (s == 0 && !strict) {
			return c.True
		}
		return c.False
	}
	ms := c.monosOf(p)
	isInt := true
	for _, m := range ms {
		for _, f := range m.fs {
			if !f.isInt {
				isInt = false
			}
		}
	}
	if isInt {
		if strict { // scale to integer coefficients; p<0 <=> p+1<=0
			l := big.NewInt(1)
			for _, m := range ms {
				d := m.c.Denom()
				g := new(big.Int).GCD(nil, nil, l, d)
				l = new(big.Int).Div(new(big.Int).Mul(l, d), g)
			}
			p = c.Mul(p, c.numRat(new(big.Rat).SetInt(l), true))
			return c.cmpLeaf(c.Add(p, c.Int(1)), false)
		}
		q := c.scaleInt(p)
		ms = c.monosOf(q)
		if ms[0].c.Sign() < 0 { // -x+k <= 0  <=>  not (x-k+1 <= 0)
			r := c.Add(c.Neg(q), c.Int(1))
			return c.Not(c.cmpLeaf(r, false))
		}
		if b, ok := c.quickSign(q, false); ok {
			return b
		}
		if b := c.keyInRange(ms); b != nil {
			return b
		}
		return c.atomB(c.raw("le0", "", false, q))
	}
	lead := ms[0].c
	if lead.Sign() < 0 {
		return c.Not(c.cmpLeaf(c.Neg(p), !strict))
	}
	q := c.Mul(p, c.numRat(new(big.Rat).Inv(lead), false))
	if b, ok := c.quickSign(q, strict); ok {
		return b
	}
	if strict {
		return c.atomB(c.raw("lt0", "", false, q))
	}
	return c.atomB(c.raw("le0", "", false, q))
}

// quickSign decides q<=0 for single non-negative terms plus constants.
func (c *TermCtx) quickSign(q *Term, strict bool) (*Term, bool) {
	allNN := true
	konst := new(big.Rat)
	for _, m := range c.monosOf(q) {
		if len(m.fs) == 0 {
			konst = new(big.Rat).Add(konst, m.c)
			continue
		}
		if m.c.Sign() < 0 {
			return nil, false
		}
		if len(m.fs) == 1 {
			if l := c.lower[m.fs[0].id]; l != nil && l.isConstNum() {
				konst = new(big.Rat).Add(konst, new(big.Rat).Mul(m.c, l.ratVal()))
				continue
			}
		}
		for _, f := range m.fs {
			if !c.isNonNeg(f) {
				allNN = false
			}
		}
	}
	if allNN && (konst.Sign() > 0 || (strict && konst.Sign() == 0)) {
		return c.False, true
	}
	return nil, false
}

func (c *TermCtx) isNonNeg(t *Term) bool {
	switch t.op {
	case "len", "first", "kappa", "bv", "cap", "keyidx", "maplen":
		return true
	case "inv":
		return c.leavesNonNegPoly(t.args[0])
	}
	return c.nonNeg[t.id]
}

// leavesNonNegPoly: a sum of products of non-negative quantities.
func (c *TermCtx) leavesNonNegPoly(t *Term) bool {
	if t.op == "ite" {
		return false
	}
	for _, m := range c.monosOf(t) {
		if m.c.Sign() < 0 {
			return false
		}
		for _, f := range m.fs {
			if !c.isNonNeg(f) {
				return false
			}
		}
	}
	return true
}

func (c *TermCtx) scaleInt(p *Term) *Term {
	l := big.NewInt(1)
	for _, m := range p.monos {
		d := m.c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Div(new(big.Int).Mul(l, d), g)
	}
	if p.op != "poly" {
		return p
	}
	var g *big.Int
	for _, m := range p.monos {
		if len(m.fs) == 0 {
			continue
		}
		n := new(big.Int).Mul(m.c.Num(), new(big.Int).Div(l, m.c.Denom()))
		n.Abs(n)
		if g == nil {
			g = n
		} else {
			g = new(big.Int).GCD(nil, nil, g, n)
		}
	}
	if g == nil || g.Sign() == 0 {
		return p
	}
	var ms []mono
	for _, m := range p.monos {
		v := new(big.Rat).Mul(m.c, new(big.Rat).SetFrac(l, g))
		if len(m.fs) == 0 && !v.IsInt() { // p<=0: a+k<=0 with a integer: ceil(k)
			n, d := v.Num(), v.Denom()
			q := new(big.Int)
			r := new(big.Int)
			q.DivMod(n, d, r) // floor, d>0
			q.Add(q, big.NewInt(1))
			v = new(big.Rat).SetInt(q)
		}
		ms = append(ms, mono{v, m.fs})
	}
	return c.fromMonos(ms, true)
}

func (c *TermCtx) Le(a, b *Term) *Term { return c.cmp0(c.Sub(a, b), false) }
func (c *TermCtx) Lt(a, b *Term) *Term { return c.cmp0(c.Sub(a, b), true) }

func (t *Term) isNum() bool { return t.op == "poly" }

// EqNum is numeric equality.
func (c *TermCtx) EqNum(a, b *Term) *Term {
	d := c.Sub(a, b)
	return c.App("eq0", func(x []*Term) *Term {
		p := x[0]
		if p.isConstNum() {
			if p.ratVal().Sign() == 0 {
				return c.True
			}
			return c.False
		}
		ms := c.monosOf(p)
		q := p
		if p.op == "poly" {
			q = c.Mul(p, c.numRat(new(big.Rat).Inv(ms[0].c), p.isInt))
		}
		// a non-negative quantity is zero iff it is <= 0
		ms = c.monosOf(q)
		if len(ms) == 1 && len(ms[0].fs) == 1 && c.isNonNeg(ms[0].fs[0]) {
			return c.cmpLeaf(q, false)
		}
		if len(ms) == 2 && len(ms[1].fs) == 0 && len(ms[0].fs) == 1 {
			if l := c.lower[ms[0].fs[0].id]; l != nil && l.isConstNum() && new(big.Rat).Add(l.ratVal(), ms[1].c).Sign() > 0 {
				return c.False
			}
		}
		if len(ms) == 2 && len(ms[1].fs) == 0 && len(ms[0].fs) == 1 && c.isNonNeg(ms[0].fs[0]) && ms[1].c.Sign() > 0 {
			return c.False
		}
		return c.atomB(c.raw("eq0", "", false, q))
	}, d)
}

// Eq is equality of non-numeric terms.
func (c *TermCtx) Eq(a, b *Term) *Term {
	return c.App("eq", func(x []*Term) *Term {
		a, b := x[0], x[1]
		if a == b {
			return c.True
		}
		if a.op == "true" {
			return c.atomB(b)
		}
		if b.op == "true" {
			return c.atomB(a)
		}
		if a.op == "false" {
			return c.Not(c.atomB(b))
		}
		if b.op == "false" {
			return c.Not(c.atomB(a))
		}
		if a.op == "str" && b.op == "str" {
			return c.False
		}
		if a.op == "str" && a.aux == "" {
			return c.EqNum(c.Len(b), c.Int(0))
		}
		if b.op == "str" && b.aux == "" {
			return c.EqNum(c.Len(a), c.Int(0))
		}
		if b.op == "nil" && c.isNonNil(a) || a.op == "nil" && c.isNonNil(b) {
			return c.False
		}
		// appending nothing to nil leaves nil
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].op != "nil" {
				continue
			}
			switch q := p[1]; q.op {
			case "appmap", "appslice", "appfilter":
				if c.isNonNil(q.args[0]) {
					return c.False
				}
				if q.args[0].op == "nil" {
					return c.Le(c.Len(q), c.Int(0))
				}
			}
		}
		if a.op == "struct" && b.op == "struct" && a.aux == b.aux {
			r := c.True
			for i := range a.args {
				r = c.And(r, c.EqAny(a.args[i], b.args[i]))
			}
			return r
		}
		if a.op == "alloc" && b.op == "alloc" && a.aux != b.aux {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.atomB(c.raw("eq", "", false, a, b))
	}, a, b)
}

func (c *TermCtx) isNumericTerm(t *Term) bool {
	if t.op == "kappa" && t.typ != nil {
		return t.aux2num()
	}
	switch t.op {
	case "poly", "len", "cap", "first", "kappa", "inv", "idiv", "sum", "maplen", "trunc":
		return true
	case "ite":
		return c.isNumericTerm(t.args[1])
	}
	return t.isInt || t.aux2num()
}

func (t *Term) aux2num() bool { return t.typ != nil && isNumeric(t.typ) }

func (c *TermCtx) EqAny(a, b *Term) *Term {
	if c.isNumericTerm(a) || c.isNumericTerm(b) {
		return c.EqNum(a, b)
	}
	return c.Eq(a, b)
}

func (c *TermCtx) isNonNil(t *Term) bool {
	switch t.op {
	case "alloc", "mkslice", "mkmap", "clo", "fld", "idx", "mkchan", "iface", "err", "func", "append", "global", "jsonenc", "clone":
		return true
	}
	return c.nonNil[t.id]
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ---------- lengths

func (c *TermCtx) Len(s *Term) *Term {
	return c.App("len", func(x []*Term) *Term {
		s := x[0]
		switch s.op {
		case "nil":
			return c.Int(0)
		case "str":
			return c.Int(int64(len(s.aux)))
		case "mkslice":
			return s.args[0]
		case "fresh":
			if strings.HasPrefix(s.aux, "github.com/google/uuid.NewString#") {
				return c.Int(36)
			}
		case "mkmap":
		case "append":
			return c.Add(c.Len(s.args[0]), c.Int(int64(len(s.args)-1)))
		case "appslice":
			return c.Add(c.Len(s.args[0]), c.Len(s.args[1]))
		case "sub":
			return c.Sub(s.args[2], s.args[1])
		case "appmap":
			return c.Add(c.Len(s.args[0]), s.args[1])
		case "strcat":
			return c.Add(c.Len(s.args[0]), c.Len(s.args[1]))
		case "b2s", "s2b":
			return c.Len(s.args[0])
		case "jsonenc":
			return c.Add(c.raw("len", "", true, s), c.Int(1))
		case "arr":
			if n, err := strconv.ParseInt(s.aux, 10, 64); err == nil {
				return c.Int(n)
			}
		}
		if c.lenZero[s.id] {
			return c.Int(0)
		}
		return c.raw("len", "", true, s)
	}, s)
}

// ---------- substitution

func (c *TermCtx) Subst(t *Term, m map[int]*Term) *Term { return c.replace(t, m, false) }

// replace is Subst for arbitrary terms where all is set, else for symbols.
func (c *TermCtx) replace(t *Term, m map[int]*Term, all bool) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if t.op == "lam" && m[t.args[0].id] != nil {
			return t // bound here
		}
		hit := all
		for s := range t.syms {
			if _, ok := m[s]; ok {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		switch {
		case t.op == "ite":
			r = c.Ite(c.atomB(f(t.args[0])), f(t.args[1]), f(t.args[2]))
		case t.op == "poly":
			r = c.numRat(new(big.Rat), t.isInt)
			for _, mo := range t.monos {
				x := c.numRat(mo.c, t.isInt)
				for _, fa := range mo.fs {
					x = c.Mul(x, f(fa))
				}
				r = c.Add(r, x)
			}
		case len(t.args) == 0:
			r = t
		default:
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = f(a)
			}
			r = c.rebuild(t, args)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

// rebuild re-applies the operator of t to new args, normalising.
func (c *TermCtx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "le0", "lt0":
		return c.cmp0(args[0], t.op == "lt0")
	case "eq0":
		return c.EqNum(args[0], c.numRat(new(big.Rat), args[0].isInt))
	case "eq":
		return c.EqAny(args[0], args[1])
	case "len":
		return c.Len(args[0])
	case "idiv":
		return c.IDiv(args[0], args[1])
	case "inv":
		return c.FDiv(c.numRat(big.NewRat(1, 1), false), args[0])
	case "sub":
		return c.SubSlice(args[0], args[1], args[2])
	case "field":
		return c.Field(args[0], t.aux)
	case "appmap":
		return c.AppMap(args[0], args[1], args[2])
	case "appfilter":
		return c.AppFilter(args[0], args[1], args[2], args[3])
	case "keyidx":
		return c.App("keyidx", func(x []*Term) *Term { return c.KeyIdx(x...) }, args...)
	case "mapkey":
		return c.App("mapkey", func(x []*Term) *Term {
			var keys *Term
			if len(x) == 3 {
				keys = x[2]
			}
			r := c.MapKey(x[0], x[1], keys, nil)
			if r.typ == nil {
				r.typ = t.typ
			}
			return r
		}, args...)
	case "sum":
		return c.Sum(args[0], args[1])
	case "lam":
		// conditions on the bound variable stay inside
		return c.lam(args[0], args[1])
	case "exists", "first":
		if len(args) == 2 && args[0].op == "lam" {
			e, k := c.First(args[0], args[1])
			if t.op == "exists" {
				return e
			}
			return k
		}
		return c.raw(t.op, t.aux, t.isInt, args...)
	case "idx":
		return c.Idx(args[0], args[1])
	case "fld":
		return c.Fld(args[0], t.aux)
	}
	op, aux, isInt, typ := t.op, t.aux, t.isInt, t.typ
	if f := c.refold[aux]; f != nil && op == "call" {
		return c.App("fold:"+aux, f, args...)
	}
	return c.App("rb:"+op+":"+aux, func(x []*Term) *Term {
		r := c.raw(op, aux, isInt, x...)
		if r.typ == nil {
			r.typ = typ
		}
		if c.nonNeg[t.id] {
			c.nonNeg[r.id] = true
		}
		if c.nonNil[t.id] {
			c.nonNil[r.id] = true
		}
		return r
	}, args...)
}

// fold applies a library function to args, in the normal form made by f.
func (c *TermCtx) fold(name string, f func(a []*Term) *Term, args ...*Term) *Term {
	c.refold[name] = f
	return c.App("fold:"+name, f, args...)
}

func (c *TermCtx) SubSlice(s, lo, hi *Term) *Term {
	return c.App("sub", func(x []*Term) *Term {
		s, lo, hi := x[0], x[1], x[2]
		if lo.isConstNum() && lo.ratVal().Sign() == 0 && hi == c.Len(s) {
			return s
		}
		if s.op == "sub" {
			return c.SubSlice(s.args[0], c.Add(s.args[1], lo), c.Add(s.args[1], hi))
		}
		return c.raw("sub", "", false, s, lo, hi)
	}, s, lo, hi)
}

// ---------- structs (values)

func (c *TermCtx) Field(s *Term, name string) *Term {
	return c.App("field:"+name, func(x []*Term) *Term {
		s := x[0]
		if s.op == "struct" {
			names := strings.Split(s.aux, ";")
			for i, n := range names[1:] {
				if n == name {
					return s.args[i]
				}
			}
		}
		return c.raw("field", name, false, s)
	}, s)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	switch t.op {
	case "true", "false", "nil":
		return t.op
	case "str":
		return strconv.Quote(t.aux)
	case "poly":
		if len(t.monos) == 0 {
			return "0"
		}
		var parts []string
		for _, m := range t.monos {
			var s []string
			one := m.c.Cmp(big.NewRat(1, 1)) == 0
			if !one || len(m.fs) == 0 {
				s = append(s, m.c.RatString())
			}
			for _, f := range m.fs {
				s = append(s, f.str(d+1))
			}
			parts = append(parts, strings.Join(s, "*"))
		}
		return "(" + strings.Join(parts, " + ") + ")"
	case "ite":
		return "[" + t.args[0].str(d+1) + " ? " + t.args[1].str(d+1) + " : " + t.args[2].str(d+1) + "]"
	case "sym", "kappa", "bv", "hav", "func", "global":
		return t.aux
	case "ini":
		return t.args[0].str(d + 1)
	case "fld":
		return t.args[0].str(d+1) + "." + t.aux
	case "field":
		return t.args[0].str(d+1) + "." + t.aux
	case "idx":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "le0":
		return t.args[0].str(d+1) + "<=0"
	case "lt0":
		return t.args[0].str(d+1) + "<0"
	case "eq0":
		return t.args[0].str(d+1) + "==0"
	case "eq":
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	x := t.op
	if t.aux != "" {
		aux := t.aux
		if i := strings.Index(aux, ";"); t.op == "struct" && i >= 0 {
			aux = aux[:i]
		}
		x += "<" + aux + ">"
	}
	return x + "(" + strings.Join(as, ",") + ")"
}
