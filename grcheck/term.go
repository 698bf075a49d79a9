package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a node of the value-flow graph: where a value comes from. Terms are
// hash-consed, so equal pointers mean equal provenance.
type Term struct {
	ID   int
	Op   string
	S    string
	Idx  int
	Args []*Term
	C    constant.Value
	T    types.Type
	Fn   *ssa.Function
	Val  ssa.Value
	Fr   *Frame
	Loop *LoopCtx
	// calls
	Callee string
	Inls   []*Frame // frames of analysed callees
	CB     []*Frame // frames of callbacks handed to an unanalysed callee (intrinsics: callback of the element)
}

// LoopCtx is one loop in one calling context, or the implicit loop of a
// collection helper (lo.Map and friends).
type LoopCtx struct {
	ID   int
	L    *Loop
	Fr   *Frame
	Site ssa.CallInstruction // implicit loops
	Coll *Term
	Rev  bool
	Part bool // may stop early
}

// Frame is one function in one calling context.
type Frame struct {
	ID     int
	Fn     *ssa.Function
	Parent *Frame
	Site   ssa.CallInstruction
	CBLoop *LoopCtx
	env    map[ssa.Value]*Term
	loops  map[*Loop]*LoopCtx
	order  int
	an     *Analysis
	rets   []*ssa.Return
	depth  int
}

type StoreRec struct {
	Val  *Term
	Key  *Term // map updates, index stores
	In   ssa.Instruction
	Fr   *Frame
	Seq  int
	Zero bool
}

type Event struct {
	Fr       *Frame
	In       ssa.CallInstruction
	Callee   string
	Args     []*Term
	Call     *Term
	Deferred bool
	Seq      int
}

// Analysis is the context-sensitive value-flow analysis of one set of roots.
type Analysis struct {
	P      *Program
	terms  map[string]*Term
	nterm  int
	nframe int
	nloop  int
	seq    int
	heap   map[*Term]map[string][]*StoreRec
	Events []*Event
	Frames []*Frame
	limit  int
	cut    map[string]int // recursion cut-offs per function
	// opaque cells: set from outside (command line flags)
	opaque map[*Term]*Flag
	// frames by function, for queries
	ByFn map[*ssa.Function][]*Frame
}

func newAnalysis(p *Program) *Analysis {
	return &Analysis{P: p, terms: map[string]*Term{}, heap: map[*Term]map[string][]*StoreRec{}, cut: map[string]int{}, opaque: map[*Term]*Flag{}, ByFn: map[*ssa.Function][]*Frame{}, limit: 60000}
}

func (a *Analysis) mk(op, s string, idx int, loop *LoopCtx, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%s|%d", op, s, idx)
	if loop != nil {
		fmt.Fprintf(&sb, "|L%d", loop.ID)
	}
	for _, x := range args {
		fmt.Fprintf(&sb, "|%d", x.ID)
	}
	k := sb.String()
	if t, ok := a.terms[k]; ok {
		return t
	}
	a.nterm++
	t := &Term{ID: a.nterm, Op: op, S: s, Idx: idx, Loop: loop, Args: args}
	a.terms[k] = t
	return t
}

// ident makes (or finds) a term identified by an SSA value in a frame.
func (a *Analysis) ident(op string, v ssa.Value, fr *Frame) *Term {
	k := fmt.Sprintf("%s@%p@%d", op, v, fr.ID)
	if t, ok := a.terms[k]; ok {
		return t
	}
	a.nterm++
	t := &Term{ID: a.nterm, Op: op, Val: v, Fr: fr, T: v.Type()}
	a.terms[k] = t
	return t
}

func (a *Analysis) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			t := a.mk("zero", c.Type().String(), 0, nil)
			t.T = c.Type()
			return t
		}
		t := a.mk("nil", "", 0, nil)
		return t
	}
	t := a.mk("const", c.Value.ExactString(), int(c.Value.Kind()), nil)
	t.C = c.Value
	if t.T == nil {
		t.T = c.Type()
	}
	return t
}

func (t *Term) isConstString() (string, bool) {
	if t.Op == "const" && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func (t *Term) isConstInt() (int64, bool) {
	if t.Op == "const" && t.C != nil {
		c := constant.ToInt(t.C)
		if c.Kind() == constant.Int {
			return constant.Int64Val(c)
		}
	}
	return 0, false
}

func (t *Term) isConstBool() (bool, bool) {
	if t.Op == "const" && t.C != nil && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (f *Frame) String() string {
	var parts []string
	for x := f; x != nil; x = x.Parent {
		parts = append(parts, x.Fn.Name())
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, " > ")
}

func (f *Frame) loopCtx(l *Loop) *LoopCtx {
	if c, ok := f.loops[l]; ok {
		return c
	}
	f.an.nloop++
	c := &LoopCtx{ID: f.an.nloop, L: l, Fr: f}
	f.loops[l] = c
	if l.Coll != nil {
		c.Coll = f.eval(l.Coll)
		if n, ok := constant.Int64Val(constOr0(l.From)); ok && l.Kind == "slice-tail" {
			// the turns are those over coll[n:]
			c.Coll = f.an.mk("slice", "", 0, nil, c.Coll, f.an.constInt(int(n)), f.an.none())
		}
	}
	c.Rev = l.Kind == "slice-rev"
	c.Part = cfgOf(l.Fn).partialExit(l) != nil
	return c
}

func constOr0(v constant.Value) constant.Value {
	if v == nil {
		return constant.MakeInt64(0)
	}
	return v
}

func fieldNameOf(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprintf("#%d", i)
}

// eval gives the provenance of an SSA value in a frame.
func (f *Frame) eval(v ssa.Value) *Term {
	if t, ok := f.env[v]; ok {
		return t
	}
	a := f.an
	set := func(t *Term) *Term {
		if t.T == nil {
			t.T = v.Type()
		}
		f.env[v] = t
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		return set(a.constTerm(x))
	case *ssa.Function:
		t := a.mk("fn", x.String(), 0, nil)
		t.Fn = x
		return set(t)
	case *ssa.Global:
		return set(a.mk("global", x.Pkg.Pkg.Path()+"."+x.Name(), 0, nil))
	case *ssa.Builtin:
		return set(a.mk("builtin", x.Name(), 0, nil))
	case *ssa.Parameter:
		return set(a.ident("param", x, f))
	case *ssa.FreeVar:
		return set(a.ident("param", x, f))
	case *ssa.Alloc:
		return set(a.ident("obj", x, f))
	case *ssa.MakeMap:
		return set(a.ident("makemap", x, f))
	case *ssa.MakeSlice:
		t := a.ident("makeslice", x, f)
		f.env[v] = t
		t.Args = []*Term{f.eval(x.Len)}
		return t
	case *ssa.MakeChan:
		return set(a.ident("chan", x, f))
	case *ssa.MakeClosure:
		t := a.ident("closure", x, f)
		t.Fn = x.Fn.(*ssa.Function)
		f.env[v] = t
		if t.Args == nil {
			for _, b := range x.Bindings {
				t.Args = append(t.Args, f.eval(b))
			}
		}
		return t
	case *ssa.Phi:
		if lc := f.loopIndex(x); lc != nil {
			return set(a.mk("rangeidx", "", 0, lc))
		}
		t := a.ident("phi", x, f)
		f.env[v] = t
		if t.Args == nil {
			for _, e := range x.Edges {
				t.Args = append(t.Args, f.eval(e))
			}
		}
		return t
	case *ssa.Call:
		return set(f.callTerm(x))
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				l := f.loopOfRange(r, nx)
				coll := f.eval(r.X)
				switch x.Index {
				case 1:
					return set(a.mk("mapkey", "", 0, l, coll))
				case 2:
					return set(a.mk("elem", "", 0, l, coll))
				}
			}
			return set(a.mk("more", "", 0, nil, f.eval(x.Tuple)))
		}
		return set(a.mk("res", "", x.Index, nil, f.eval(x.Tuple)))
	case *ssa.Next:
		return set(a.ident("next", x, f))
	case *ssa.Range:
		return set(a.ident("range", x, f))
	case *ssa.FieldAddr:
		return set(a.mk("addr", fieldNameOf(x.X.Type(), x.Field), 0, nil, f.eval(x.X)))
	case *ssa.Field:
		return set(a.field(f.eval(x.X), fieldNameOf(x.X.Type(), x.Field)))
	case *ssa.IndexAddr:
		return set(a.mk("iaddr", "", 0, nil, f.eval(x.X), f.eval(x.Index)))
	case *ssa.Index:
		return set(f.indexTerm(x.X, x.Index))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return set(a.mk("mapget", "", 0, nil, f.eval(x.X), f.eval(x.Index)))
		}
		return set(a.mk("index", "", 0, nil, f.eval(x.X), f.eval(x.Index)))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return set(f.load(x))
		case token.NOT, token.SUB, token.XOR:
			return set(a.mk("unop", x.Op.String(), 0, nil, f.eval(x.X)))
		}
		return set(a.mk("unop", x.Op.String(), 0, nil, f.eval(x.X)))
	case *ssa.BinOp:
		// loop indexes
		if lc := f.loopIndex(x); lc != nil {
			return set(a.mk("rangeidx", "", 0, lc))
		}
		return set(a.mk("binop", x.Op.String(), 0, nil, f.eval(x.X), f.eval(x.Y)))
	case *ssa.ChangeType:
		return set(f.eval(x.X))
	case *ssa.ChangeInterface:
		return set(f.eval(x.X))
	case *ssa.MakeInterface:
		t := f.eval(x.X)
		f.env[v] = t
		return t
	case *ssa.Convert:
		t := f.eval(x.X)
		if basicInfo(x.Type())&types.IsString != 0 && basicInfo(x.X.Type())&types.IsString != 0 {
			return set(t)
		}
		n := a.mk("conv", x.Type().String(), 0, nil, t)
		return set(n)
	case *ssa.SliceToArrayPointer:
		return set(f.eval(x.X))
	case *ssa.Slice:
		args := []*Term{f.eval(x.X), a.none(), a.none()}
		if x.Low != nil {
			args[1] = f.eval(x.Low)
		}
		if x.High != nil {
			args[2] = f.eval(x.High)
		}
		return set(a.mk("slice", "", 0, nil, args...))
	case *ssa.TypeAssert:
		t := f.eval(x.X)
		n := a.mk("assert", x.AssertedType.String(), boolInt(x.CommaOk), nil, t)
		n.T = x.AssertedType
		return set(n)
	}
	return set(a.ident("unknown", v, f))
}

func basicInfo(t types.Type) types.BasicInfo {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (a *Analysis) none() *Term { return a.mk("none", "", 0, nil) }

// loopIndex: x is the in-body index of a recognised slice loop.
func (f *Frame) loopIndex(x ssa.Value) *LoopCtx {
	var b *ssa.BasicBlock
	if in, ok := x.(ssa.Instruction); ok {
		b = in.Block()
	}
	if b == nil {
		return nil
	}
	for _, l := range cfgOf(f.Fn).loops {
		if l.Header == b && l.Idx == x && (l.Kind == "slice" || l.Kind == "slice-rev") {
			return f.loopCtx(l)
		}
	}
	return nil
}

func (f *Frame) loopOfRange(r *ssa.Range, nx *ssa.Next) *LoopCtx {
	for _, l := range cfgOf(f.Fn).loops {
		if l.Header == nx.Block() {
			return f.loopCtx(l)
		}
	}
	return nil
}

func (f *Frame) indexTerm(coll, idx ssa.Value) *Term {
	ct := f.eval(coll)
	var lc *LoopCtx
	for _, l := range cfgOf(f.Fn).loops {
		if l.Idx == idx && (l.Kind == "slice" || l.Kind == "slice-rev") {
			lc = f.loopCtx(l)
		}
		if l.Idx == idx && l.Kind == "slice-tail" {
			if c := f.loopCtx(l); c.Coll.Op == "slice" && c.Coll.Args[0] == ct {
				return f.an.mk("elem", "", 0, c, c.Coll)
			}
		}
	}
	if lc != nil {
		if lc.Coll == ct || f.an.sameColl(lc.Coll, ct) {
			return f.an.mk("elem", "", 0, lc, ct)
		}
		return f.an.mk("index", "", 0, nil, ct, f.an.mk("rangeidx", "", 0, lc))
	}
	return f.an.mk("index", "", 0, nil, ct, f.eval(idx))
}

// sameColl: two reads of one collection (e.g. two loads of the same field).
func (a *Analysis) sameColl(x, y *Term) bool {
	return x == y
}

func (f *Frame) load(x *ssa.UnOp) *Term {
	a := f.an
	switch ad := x.X.(type) {
	case *ssa.FieldAddr:
		return a.field(f.eval(ad.X), fieldNameOf(ad.X.Type(), ad.Field))
	case *ssa.IndexAddr:
		return f.indexTerm(ad.X, ad.Index)
	}
	t := f.eval(x.X)
	return a.deref(t)
}

func (a *Analysis) deref(t *Term) *Term {
	switch t.Op {
	case "addr":
		return a.field(t.Args[0], t.S)
	case "iaddr":
		return a.mk("index", "", 0, nil, t.Args[0], t.Args[1])
	}
	return a.mk("load", "", 0, nil, t)
}

func (a *Analysis) field(base *Term, name string) *Term {
	if base.Op == "load" {
		base = base.Args[0]
	}
	return a.mk("field", name, 0, nil, base)
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0, map[*Term]bool{}) }

func (t *Term) str(d int, seen map[*Term]bool) string {
	if t == nil {
		return "<nil>"
	}
	if d > 8 {
		return "…"
	}
	if seen[t] && (t.Op == "phi" || t.Op == "call") {
		return fmt.Sprintf("%s#%d", t.Op, t.ID)
	}
	seen[t] = true
	defer delete(seen, t)
	args := func(xs []*Term) string {
		var ss []string
		for _, x := range xs {
			ss = append(ss, x.str(d+1, seen))
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case "const":
		return t.S
	case "nil":
		return "nil"
	case "param":
		return "param:" + t.Val.Name() + "@" + t.Fr.Fn.Name()
	case "obj":
		return fmt.Sprintf("obj#%d:%s", t.ID, shortType(t.T))
	case "global":
		return t.S
	case "field":
		return t.Args[0].str(d+1, seen) + "." + t.S
	case "addr":
		return "&" + t.Args[0].str(d+1, seen) + "." + t.S
	case "elem":
		return t.Args[0].str(d+1, seen) + "[*]"
	case "load":
		return "*" + t.Args[0].str(d+1, seen)
	case "res":
		return t.Args[0].str(d+1, seen) + fmt.Sprintf("#%d", t.Idx)
	case "call":
		return t.Callee + "(" + args(t.Args) + ")"
	case "fn":
		return "fn:" + t.S
	case "closure":
		return "closure:" + t.Fn.Name()
	case "none":
		return "_"
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	return s + "(" + args(t.Args) + ")"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}
