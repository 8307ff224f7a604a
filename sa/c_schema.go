package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S05: one wire schema, stable and the same in every language.

//go:embed published.json
var publishedJSON []byte

//go:embed schema.cjs
var schemaScript []byte

func init() {
	register("S05", "schema extraction and cross-language comparison (syntax trees, embedded descriptor, type-checked Go)", "The message definitions are read from the .proto files, from the descriptor bytes and struct tags compiled into the Go package, and from the syntax trees of the JavaScript and TypeScript readers and writers; every message, field number, name, type and repetition must agree everywhere, each generated accessor must read its own field, and every field published before must keep number, name and type.", checkS05)
}

type pfield struct {
	Num  int    `json:"num"`
	Name string `json:"name"`
	Type string `json:"type"`
	Rep  bool   `json:"rep,omitempty"`
}

func (f pfield) String() string {
	s := f.Type + " " + f.Name + " = " + strconv.Itoa(f.Num)
	if f.Rep {
		s = "repeated " + s
	}
	return s
}

// pmsg is a message with its fields in order of declaration.
type pmsg struct {
	Name   string   `json:"name"`
	Fields []pfield `json:"fields"`
	subs   []*pmsg
}

func (m *pmsg) num(n int) *pfield {
	for i := range m.Fields {
		if m.Fields[i].Num == n {
			return &m.Fields[i]
		}
	}
	return nil
}

type pfile struct {
	name string
	pkg  string
	top  []*pmsg
}

// all messages in the order in which the Go generator numbers them: siblings
// together, then what is nested in each.
func (f *pfile) all() []*pmsg {
	var out []*pmsg
	var walk func(ms []*pmsg)
	walk = func(ms []*pmsg) {
		out = append(out, ms...)
		for _, m := range ms {
			walk(m.subs)
		}
	}
	walk(f.top)
	return out
}

func (f *pfile) byName() map[string]*pmsg {
	m := map[string]*pmsg{}
	for _, x := range f.all() {
		m[x.Name] = x
	}
	return m
}

// ---- .proto text

func protoTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				return out
			}
			i += j + 2
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(s) && s[j] != c {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '.' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

var scalarTypes = map[string]int{"double": 1, "float": 2, "int64": 3, "uint64": 4, "int32": 5, "fixed64": 6, "fixed32": 7, "bool": 8, "string": 9, "bytes": 12, "uint32": 13, "sfixed32": 15, "sfixed64": 16, "sint32": 17, "sint64": 18}

func scalarName(n int) string {
	for k, v := range scalarTypes {
		if v == n {
			return k
		}
	}
	return fmt.Sprintf("type%d", n)
}

func parseProto(name, text string) (*pfile, error) {
	f := &pfile{name: name}
	toks := protoTokens(text)
	i := 0
	next := func() string {
		if i < len(toks) {
			i++
			return toks[i-1]
		}
		return ""
	}
	skip := func() { // to the end of a statement
		for i < len(toks) {
			if next() == ";" {
				return
			}
		}
	}
	var bad error
	var body func(m *pmsg)
	body = func(m *pmsg) {
		for i < len(toks) && bad == nil {
			t := next()
			switch t {
			case "}":
				return
			case ";":
			case "option", "reserved", "extensions":
				skip()
			case "message":
				s := &pmsg{Name: m.Name + "." + next()}
				next()
				body(s)
				m.subs = append(m.subs, s)
			case "oneof":
				next()
				next()
				body(m)
			case "enum", "map", "group", "extend":
				bad = fmt.Errorf("%s: %s in %s is not supported", name, t, m.Name)
			default:
				fl := pfield{}
				if t == "repeated" {
					fl.Rep = true
					t = next()
				} else if t == "optional" || t == "required" {
					t = next()
				}
				fl.Type, fl.Name = t, next()
				if next() != "=" {
					bad = fmt.Errorf("%s: cannot read field %s of %s", name, fl.Name, m.Name)
					return
				}
				fl.Num, bad = strconv.Atoi(next())
				m.Fields = append(m.Fields, fl)
				skip()
			}
		}
	}
	for i < len(toks) && bad == nil {
		switch t := next(); t {
		case "package":
			f.pkg = next()
			next()
		case "message":
			m := &pmsg{Name: f.pkg + "." + next()}
			next()
			body(m)
			f.top = append(f.top, m)
		default:
			skip()
		}
	}
	if bad != nil {
		return nil, bad
	}
	// resolve type names from the innermost scope outwards
	by := f.byName()
	for _, m := range f.all() {
		for k := range m.Fields {
			fl := &m.Fields[k]
			if scalarTypes[fl.Type] != 0 {
				continue
			}
			found := ""
			for scope := m.Name; scope != ""; {
				if by[scope+"."+fl.Type] != nil {
					found = scope + "." + fl.Type
					break
				}
				j := strings.LastIndex(scope, ".")
				if j < 0 {
					break
				}
				scope = scope[:j]
			}
			if found == "" {
				if by[strings.TrimPrefix(fl.Type, ".")] == nil {
					return nil, fmt.Errorf("%s: unknown type %s of field %s in %s", name, fl.Type, fl.Name, m.Name)
				}
				found = strings.TrimPrefix(fl.Type, ".")
			}
			fl.Type = found
		}
	}
	return f, nil
}

// ---- descriptor bytes

// wire splits an encoded message into its fields.
func wire(b []byte, f func(num int, v uint64, data []byte)) error {
	for len(b) > 0 {
		k, n := uvar(b)
		if n <= 0 {
			return fmt.Errorf("malformed descriptor")
		}
		b = b[n:]
		switch k & 7 {
		case 0:
			v, n := uvar(b)
			if n <= 0 {
				return fmt.Errorf("malformed descriptor")
			}
			f(int(k>>3), v, nil)
			b = b[n:]
		case 2:
			l, n := uvar(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return fmt.Errorf("malformed descriptor")
			}
			f(int(k>>3), 0, b[n:n+int(l)])
			b = b[n+int(l):]
		default:
			return fmt.Errorf("malformed descriptor")
		}
	}
	return nil
}

func uvar(b []byte) (uint64, int) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, 0
}

func parseDescriptor(b []byte) (*pfile, error) {
	f := &pfile{}
	var err error
	keep := func(e error) {
		if err == nil {
			err = e
		}
	}
	var msg func(scope string, b []byte) *pmsg
	msg = func(scope string, b []byte) *pmsg {
		m := &pmsg{}
		keep(wire(b, func(n int, v uint64, d []byte) {
			if n == 1 {
				m.Name = scope + "." + string(d)
			}
		}))
		keep(wire(b, func(n int, v uint64, d []byte) {
			switch n {
			case 2:
				fl := pfield{}
				typ := 0
				keep(wire(d, func(n int, v uint64, d []byte) {
					switch n {
					case 1:
						fl.Name = string(d)
					case 3:
						fl.Num = int(v)
					case 4:
						fl.Rep = v == 3
					case 5:
						typ = int(v)
					case 6:
						fl.Type = strings.TrimPrefix(string(d), ".")
					}
				}))
				if fl.Type == "" {
					fl.Type = scalarName(typ)
				}
				m.Fields = append(m.Fields, fl)
			case 3:
				m.subs = append(m.subs, msg(m.Name, d))
			}
		}))
		return m
	}
	keep(wire(b, func(n int, v uint64, d []byte) {
		switch n {
		case 1:
			f.name = string(d)
		case 2:
			f.pkg = string(d)
		}
	}))
	keep(wire(b, func(n int, v uint64, d []byte) {
		if n == 4 {
			f.top = append(f.top, msg(f.pkg, d))
		}
	}))
	return f, err
}

// pkgVars are the initialisers of the package-level variables and constants.
func pkgVars(p *Prog, path string) map[string]ast.Expr {
	out := map[string]ast.Expr{}
	for _, file := range p.byName[path].Syntax {
		for _, d := range file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					for i, n := range v.Names {
						if i < len(v.Values) {
							out[n.Name] = v.Values[i]
						}
					}
				}
			}
		}
	}
	return out
}

func intElems(info *types.Info, e ast.Expr) []int64 {
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil
	}
	var out []int64
	for _, x := range cl.Elts {
		tv := info.Types[x]
		if tv.Value == nil {
			return nil
		}
		n, _ := constant.Int64Val(constant.ToInt(tv.Value))
		out = append(out, n)
	}
	return out
}

func rawBytes(info *types.Info, e ast.Expr) []byte {
	if tv := info.Types[e]; tv.Value != nil && tv.Value.Kind() == constant.String {
		return []byte(constant.StringVal(tv.Value))
	}
	if call, ok := e.(*ast.CallExpr); ok && len(call.Args) == 1 {
		return rawBytes(info, call.Args[0])
	}
	var out []byte
	for _, n := range intElems(info, e) {
		out = append(out, byte(n))
	}
	return out
}

func camel(s string) string {
	out := ""
	for _, w := range strings.Split(s, "_") {
		if w != "" {
			out += strings.ToUpper(w[:1]) + w[1:]
		}
	}
	return out
}

func lowerFirst(s string) string {
	if s == "" {
		return s
	}
	return strings.ToLower(s[:1]) + s[1:]
}

// goMsg is the name of the Go (and TypeScript) type of a message.
func goMsg(full string) string {
	return strings.ReplaceAll(full[strings.Index(full, ".")+1:], ".", "_")
}

func checkS05(p *Prog, r *Report) {
	r.Rule("published", 100, "published fields keep number, name, type and repetition")
	r.Rule("descriptor", 20, "the compiled descriptor equals the message definitions")
	r.Rule("struct", 100, "the Go types map every field to its number, name and type")
	r.Rule("getter", 100, "every generated accessor reads its own field")
	r.Rule("index", 4, "the generated type tables name the right messages")
	r.Rule("typescript", 150, "the TypeScript reader and writer agree with the message definitions")
	r.Rule("javascript", 150, "the JavaScript reader and writer agree with the message definitions")
	pk := p.pkg("proto")
	if pk == nil {
		r.Ob("descriptor", false, "proto", "there is no proto package")
		return
	}
	dir := filepath.Join(p.dir, "proto")
	var files []*pfile
	defs := map[string]*pmsg{}
	names, _ := filepath.Glob(filepath.Join(dir, "*.proto"))
	for _, n := range names {
		b, err := os.ReadFile(n)
		rel := "proto/" + filepath.Base(n)
		if err == nil {
			var f *pfile
			if f, err = parseProto(rel, string(b)); err == nil {
				files = append(files, f)
				for k, m := range f.byName() {
					defs[k] = m
				}
				continue
			}
		}
		r.Ob("descriptor", false, rel, "the message definitions can be read: %v", err)
	}
	// published
	var pub []*pmsg
	if err := json.Unmarshal(publishedJSON, &pub); err != nil {
		panic(tooComplex{"published.json: " + err.Error()})
	}
	for _, m := range pub {
		now := defs[m.Name]
		for _, f := range m.Fields {
			if now == nil {
				r.Ob("published", false, "proto", "message %s is gone", m.Name)
				continue
			}
			g := now.num(f.Num)
			if g == nil {
				r.Ob("published", false, m.Name, "field %s is gone", f)
				continue
			}
			r.Ob("published", *g == f, m.Name, "field %s was published as %s", g, f)
		}
	}
	for _, m := range defs {
		seen := map[int]bool{}
		nm := map[string]bool{}
		for _, f := range m.Fields {
			r.Ob("published", !seen[f.Num] && !nm[f.Name], m.Name, "field %s is the only one with its number and name", f)
			seen[f.Num], nm[f.Name] = true, true
		}
	}
	// Go
	path := pk.Pkg.Path()
	info := p.byName[path].TypesInfo
	vars := pkgVars(p, path)
	inGo := map[string]bool{}
	var vn []string
	for n := range vars {
		vn = append(vn, n)
	}
	sort.Strings(vn)
	for _, n := range vn {
		if !strings.HasSuffix(n, "_rawDesc") {
			continue
		}
		f, err := parseDescriptor(rawBytes(info, vars[n]))
		if err != nil || len(f.top) == 0 {
			r.Ob("descriptor", false, n, "the embedded descriptor can be read: %v", err)
			continue
		}
		for _, m := range f.all() {
			inGo[m.Name] = true
			d := defs[m.Name]
			if !r.Ob("descriptor", d != nil, n, "message %s of the descriptor is defined", m.Name) {
				continue
			}
			r.Ob("descriptor", sameFields(d, m), n, "message %s: compiled %v, defined %v", m.Name, m.Fields, d.Fields)
		}
		base := strings.TrimSuffix(n, "_rawDesc")
		goTables(r, info, vars, base, f)
	}
	for _, m := range sortedMsgs(defs) {
		r.Ob("descriptor", inGo[m.Name], "proto", "message %s is compiled into the library", m.Name)
		goStruct(p, r, m)
	}
	// other languages
	cmd := exec.Command("node", "-", filepath.Join(dir, "gpsgen.ts"), filepath.Join(dir, "gpsgen_pb.js"))
	cmd.Stdin = bytes.NewReader(schemaScript)
	out, err := cmd.Output()
	if err != nil {
		r.Ob("typescript", false, "proto/gpsgen.ts", "the readers can be parsed: %v", err)
		return
	}
	var lang langSchema
	if err := json.Unmarshal(out, &lang); err != nil {
		r.Ob("typescript", false, "proto/gpsgen.ts", "the readers can be parsed: %v", err)
		return
	}
	for _, f := range files {
		if f.name != "proto/gpsgen.proto" {
			continue
		}
		for _, m := range f.all() {
			checkTS(r, m, lang.TS[goMsg(m.Name)])
			checkJS(r, m, lang.JS[m.Name])
		}
	}
}

func sortedMsgs(m map[string]*pmsg) []*pmsg {
	var out []*pmsg
	for _, x := range m {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func sameFields(a, b *pmsg) bool {
	if len(a.Fields) != len(b.Fields) {
		return false
	}
	for _, f := range a.Fields {
		g := b.num(f.Num)
		if g == nil || *g != f {
			return false
		}
	}
	return true
}

// goTables checks goTypes and depIdxs against the descriptor.
func goTables(r *Report, info *types.Info, vars map[string]ast.Expr, base string, f *pfile) {
	all := f.all()
	idx := map[string]int{}
	for i, m := range all {
		idx[m.Name] = i
	}
	if cl, ok := vars[base+"_goTypes"].(*ast.CompositeLit); ok {
		good := len(cl.Elts) >= len(all)
		for i, m := range all {
			if !good {
				break
			}
			t := info.Types[cl.Elts[i]].Type
			pt, ok := t.(*types.Pointer)
			good = ok && typeName(pt.Elem()) == goMsg(m.Name)
		}
		r.Ob("index", good, base+"_goTypes", "the type table lists the messages of the descriptor in order")
	}
	deps := intElems(info, vars[base+"_depIdxs"])
	var want []int64
	for _, m := range all {
		for _, fl := range m.Fields {
			if scalarTypes[fl.Type] == 0 {
				want = append(want, int64(idx[fl.Type]))
			}
		}
	}
	good := len(deps) >= len(want)
	for i := range want {
		good = good && deps[i] == want[i]
	}
	r.Ob("index", good, base+"_depIdxs", "the dependency table points at the types of the fields")
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func goStruct(p *Prog, r *Report, m *pmsg) {
	name := goMsg(m.Name)
	n := p.Type("proto", name)
	at := "proto." + name
	if !r.Ob("struct", n != nil, at, "message %s has a Go type", m.Name) {
		return
	}
	u, ok := n.Underlying().(*types.Struct)
	if !r.Ob("struct", ok, at, "the Go type of %s is a structure", m.Name) {
		return
	}
	got := map[int]bool{}
	ev := session(p)
	for i := 0; i < u.NumFields(); i++ {
		tag := reflect.StructTag(u.Tag(i)).Get("protobuf")
		if tag == "" {
			continue
		}
		parts := strings.Split(tag, ",")
		num := 0
		if len(parts) > 1 {
			num, _ = strconv.Atoi(parts[1])
		}
		fl := m.num(num)
		f := u.Field(i)
		if !r.Ob("struct", fl != nil && !got[num], at, "field %s is number %d of %s", f.Name(), num, m.Name) {
			continue
		}
		got[num] = true
		enc, typ := goKind(fl)
		tn := ""
		for _, x := range parts {
			if strings.HasPrefix(x, "name=") {
				tn = x[5:]
			}
		}
		lab := len(parts) > 2 && (parts[2] == "rep") == fl.Rep
		ft := types.TypeString(f.Type(), func(*types.Package) string { return "" })
		r.Ob("struct", parts[0] == enc && lab && tn == fl.Name && f.Name() == camel(fl.Name) && ft == typ, at, "field %s %s `%s` stands for %s", f.Name(), ft, tag, fl)
		get := p.Method(n, "Get"+f.Name())
		if !r.Ob("getter", get != nil, at, "field %s has an accessor", f.Name()) {
			continue
		}
		r.guard("getter", p.at(get), func() { getterReads(p, r, ev, n, get, f) })
	}
	for _, f := range m.Fields {
		r.Ob("struct", got[f.Num], at, "field %s is in the Go type", f)
	}
	r.use(ev)
}

func getterReads(p *Prog, r *Report, ev *Ev, n *types.Named, get *ssa.Function, f *types.Var) {
	x := ev.ptrSym("x", n)
	st, v := ev.Call(get, []*Term{x}, nil, ev.NewState(), nil, "")
	want := ev.Load(ev.NewState(), ev.c.Fld(x, f.Name()), f.Type())
	r.Ob("getter", ev.eqUnder(st.pc, v[0], want, f.Type()), p.at(get), "%s reads %s: %s", shortFn(get), f.Name(), clip(v[0].String(), 80))
}

func goKind(f *pfield) (enc, typ string) {
	switch f.Type {
	case "double":
		enc, typ = "fixed64", "float64"
	case "float":
		enc, typ = "fixed32", "float32"
	case "int64", "int32", "uint64", "uint32", "bool":
		enc, typ = "varint", f.Type
	case "string":
		enc, typ = "bytes", "string"
	case "bytes":
		enc, typ = "bytes", "[]byte"
	default:
		if scalarTypes[f.Type] != 0 {
			enc, typ = f.Type, "?"
		} else {
			enc, typ = "bytes", "*"+goMsg(f.Type)
		}
	}
	if f.Rep {
		typ = "[]" + typ
	}
	return
}

// ---- other languages

type tsField struct {
	No     int             `json:"no"`
	Name   string          `json:"name"`
	Kind   string          `json:"kind"`
	T      json.RawMessage `json:"T"`
	Repeat int             `json:"repeat"`
	Line   int             `json:"line"`
}

type rwField struct {
	No     int      `json:"no"`
	Prop   string   `json:"prop"`
	Rep    bool     `json:"rep"`
	Via    string   `json:"via"`
	Msg    string   `json:"msg"`
	Target string   `json:"target"`
	Make   string   `json:"make"`
	Wire   string   `json:"wire"`
	Cond   []string `json:"cond"`
	Line   int      `json:"line"`
}

type tsMsg struct {
	Name   string    `json:"name"`
	Fields []tsField `json:"fields"`
	Read   []rwField `json:"read"`
	Write  []rwField `json:"write"`
	Iface  map[string]struct {
		Type string `json:"type"`
		Opt  bool   `json:"opt"`
	} `json:"iface"`
	Init map[string]string `json:"init"`
}

type jsAcc struct {
	Fn   string `json:"fn"`
	No   int    `json:"no"`
	Msg  string `json:"msg"`
	Last string `json:"last"`
	Line int    `json:"line"`
}

type jsMsg struct {
	Read  []rwField        `json:"read"`
	Write []rwField        `json:"write"`
	Get   map[string]jsAcc `json:"get"`
	Set   map[string]jsAcc `json:"set"`
	Add   map[string]jsAcc `json:"add"`
	Obj   map[string]struct {
		No   *int   `json:"no"`
		Get  string `json:"get"`
		Msg  string `json:"msg"`
		Line int    `json:"line"`
	} `json:"obj"`
	Rep []int `json:"rep"`
}

type langSchema struct {
	TS map[string]*tsMsg `json:"ts"`
	JS map[string]*jsMsg `json:"js"`
}

func checkTS(r *Report, m *pmsg, t *tsMsg) {
	file := "proto/gpsgen.ts"
	if !r.Ob("typescript", t != nil && t.Name == m.Name, file, "message %s has a reader", m.Name) {
		return
	}
	at := func(n int) string { return fmt.Sprintf("%s:%d", file, n) }
	for _, f := range m.Fields {
		prop := lowerFirst(camel(f.Name))
		msg := scalarTypes[f.Type] == 0
		// reflection table
		ok, line := false, 0
		for _, x := range t.Fields {
			if x.No != f.Num {
				continue
			}
			line = x.Line
			var tn int
			var ts string
			json.Unmarshal(x.T, &tn)
			json.Unmarshal(x.T, &ts)
			ok = x.Name == f.Name && (x.Repeat != 0) == f.Rep
			if msg {
				ok = ok && x.Kind == "message" && ts == goMsg(f.Type)
			} else {
				ok = ok && x.Kind == "scalar" && tn == scalarTypes[f.Type]
			}
		}
		r.Ob("typescript", ok, at(line), "the type table of %s has %s", m.Name, f)
		// reader
		ok, line = false, 0
		seen := 0
		for _, x := range t.Read {
			if x.No != f.Num {
				continue
			}
			seen++
			line = x.Line
			ok = x.Prop == prop && x.Rep == f.Rep
			if msg {
				ok = ok && x.Msg == goMsg(f.Type) && (x.Target == "" || x.Target == prop)
			} else {
				ok = ok && x.Via == f.Type && x.Msg == ""
			}
		}
		r.Ob("typescript", ok && seen == 1, at(line), "the reader of %s reads %s", m.Name, f)
		// writer
		ok, line, seen = false, 0, 0
		for _, x := range t.Write {
			if x.No != f.Num {
				continue
			}
			seen++
			line = x.Line
			ok = x.Prop == prop && x.Rep == f.Rep && x.Wire == tsWire(f.Type)
			for _, c := range x.Cond {
				ok = ok && c == prop
			}
			if msg {
				ok = ok && x.Msg == goMsg(f.Type)
			} else {
				ok = ok && x.Via == f.Type
			}
		}
		r.Ob("typescript", ok && seen == 1, at(line), "the writer of %s writes %s", m.Name, f)
		i, has := t.Iface[prop]
		want := map[string]string{"double": "number", "float": "number", "int64": "bigint", "int32": "number", "bool": "boolean", "string": "string", "bytes": "Uint8Array"}[f.Type]
		if msg {
			want = goMsg(f.Type)
		}
		if f.Rep {
			want += "[]"
		}
		r.Ob("typescript", has && i.Type == want && i.Opt == (msg && !f.Rep), file, "interface %s declares %s: %s", goMsg(m.Name), f, i.Type)
	}
	for _, x := range t.Fields {
		r.Ob("typescript", m.num(x.No) != nil, at(x.Line), "field %d of the type table of %s is defined", x.No, m.Name)
	}
	for _, x := range append(append([]rwField{}, t.Read...), t.Write...) {
		r.Ob("typescript", m.num(x.No) != nil, at(x.Line), "field %d read or written for %s is defined", x.No, m.Name)
	}
}

func tsWire(typ string) string {
	switch typ {
	case "double", "fixed64", "sfixed64":
		return "Bit64"
	case "float", "fixed32", "sfixed32":
		return "Bit32"
	case "string", "bytes":
		return "LengthDelimited"
	}
	if scalarTypes[typ] == 0 {
		return "LengthDelimited"
	}
	return "Varint"
}

func checkJS(r *Report, m *pmsg, t *jsMsg) {
	file := "proto/gpsgen_pb.js"
	if !r.Ob("javascript", t != nil, file, "message %s has a reader", m.Name) {
		return
	}
	at := func(n int) string { return fmt.Sprintf("%s:%d", file, n) }
	rep := map[int]bool{}
	for _, n := range t.Rep {
		rep[n] = true
	}
	for _, f := range m.Fields {
		name := camel(f.Name)
		acc := name
		msg := scalarTypes[f.Type] == 0
		set := "set" + name
		if f.Rep {
			acc = name + "List"
			set = "add" + name
		}
		kind := strings.ToUpper(f.Type[:1]) + f.Type[1:]
		if msg {
			kind = "Message"
		}
		r.Ob("javascript", rep[f.Num] == f.Rep, file, "the repeated fields of %s are known: %s", m.Name, f)
		ok, line, seen := false, 0, 0
		for _, x := range t.Read {
			if x.No == f.Num {
				seen++
				line = x.Line
				ok = x.Prop == set && x.Via == "read"+kind && (!msg || x.Msg == f.Type && x.Make == f.Type)
			}
		}
		r.Ob("javascript", ok && seen == 1, at(line), "the reader of %s reads %s", m.Name, f)
		ok, line, seen = false, 0, 0
		for _, x := range t.Write {
			if x.No == f.Num {
				seen++
				line = x.Line
				w := "write" + kind
				if f.Rep {
					w = "writeRepeated" + kind
				}
				ok = strings.TrimSuffix(x.Prop, "_asU8") == "get"+acc && x.Via == w && (!msg || x.Msg == f.Type)
			}
		}
		r.Ob("javascript", ok && seen == 1, at(line), "the writer of %s writes %s", m.Name, f)
		g, has := t.Get[acc]
		wantFn := map[string]string{"double": "getFloatingPointFieldWithDefault", "float": "getFloatingPointFieldWithDefault", "bool": "getBooleanFieldWithDefault"}[f.Type]
		switch {
		case msg && f.Rep:
			wantFn = "getRepeatedWrapperField"
		case msg:
			wantFn = "getWrapperField"
		case wantFn == "":
			wantFn = "getFieldWithDefault"
		}
		r.Ob("javascript", has && g.No == f.Num && g.Fn == wantFn && (!msg || g.Msg == f.Type), at(g.Line), "the accessor get%s of %s reads %s", acc, m.Name, f)
		s, has := t.Set[acc]
		wantFn = map[string]string{"double": "setProto3FloatField", "float": "setProto3FloatField", "bool": "setProto3BooleanField", "string": "setProto3StringField", "bytes": "setProto3BytesField"}[f.Type]
		switch {
		case msg && f.Rep:
			wantFn = "setRepeatedWrapperField"
		case msg:
			wantFn = "setWrapperField"
		case wantFn == "":
			wantFn = "setProto3IntField"
		}
		r.Ob("javascript", has && s.No == f.Num && s.Fn == wantFn, at(s.Line), "set%s of %s writes %s", acc, m.Name, f)
		if f.Rep {
			a, has := t.Add[name]
			r.Ob("javascript", has && a.No == f.Num, at(a.Line), "add%s of %s writes %s", name, m.Name, f)
		}
		o, has := t.Obj[lowerFirst(acc)]
		good := has
		if has && o.No != nil {
			good = *o.No == f.Num
		} else if has {
			good = strings.TrimSuffix(o.Get, "_asB64") == "get"+acc
		}
		if msg {
			good = good && o.Msg == f.Type
		}
		r.Ob("javascript", good, at(o.Line), "the object form of %s has %s", m.Name, f)
	}
	for _, x := range append(append([]rwField{}, t.Read...), t.Write...) {
		r.Ob("javascript", m.num(x.No) != nil, at(x.Line), "field %d read or written for %s is defined", x.No, m.Name)
	}
}
