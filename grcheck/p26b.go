package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// val: the single value of a member of an object.
func (a *Analysis) only(o *Term, field string) *StoreRec {
	var res *StoreRec
	for _, s := range a.heap[o][field] {
		if s.Zero {
			continue
		}
		if res != nil && res.Val != s.Val {
			return nil
		}
		res = s
	}
	return res
}

func unconv(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "chtype" || t.Op == "load" && len(t.Args) == 1 && t.Args[0].Op == "addr") {
		t = t.Args[0]
	}
	return t
}

func (k *p26) at(s *StoreRec, f string, args ...any) {
	k.r.failAt(k.w.P.pos(s.In.Pos()), s.Fr.String(), f, args...)
}

// checkColumns: the columns recorded for a table are columns of that table.
func (k *p26) checkColumns() {
	a, w := k.w.A, k.w
	for _, o := range w.objsOf(k.c, dparserPkg+".FieldColumn") {
		if !k.inParser(o.Fr) {
			continue
		}
		tb, nm, ty := a.only(o, "Table"), a.only(o, "Name"), a.only(o, "Type")
		if tb == nil || nm == nil {
			continue
		}
		t, n := unconv(tb.Val), unconv(nm.Val)
		if t.Op != "field" || n.Op != "field" {
			k.r.count("columns not followed", 1)
			continue
		}
		k.r.count("columns recorded", 1)
		if t.Args[0] != n.Args[0] && !a.sameVal(t.Args[0], n.Args[0]) {
			k.at(nm, "a column is recorded for the table of another one")
			continue
		}
		if t.S == n.S {
			k.at(nm, "a column is recorded under its table's name")
			continue
		}
		base := t.Args[0]
		if base.Op == "elem" && base.Loop != nil && base.Loop.Coll != nil {
			k.checkLookup(base.Loop.Coll, tb, ty)
		}
		if _, c := base.idxConst(); c {
			k.at(nm, "only one of the columns a reference stands for is taken into account")
		}
		if bt := namedOf(base.T); bt != "" {
			for _, in := range w.objsOf(k.c, bt) {
				k.checkInfo(in, t.S, n.S)
			}
		}
	}
}

// checkInfo: a catalog column and its table.
func (k *p26) checkInfo(o *Term, tf, nf string) {
	a, w := k.w.A, k.w
	tb, nm := a.only(o, tf), a.only(o, nf)
	if tb == nil || nm == nil {
		return
	}
	n := unconv(nm.Val)
	if n.Op != "field" || n.S != "Name" || n.Args[0].Op != "elem" || n.Args[0].Loop == nil || n.Args[0].Loop.Coll == nil {
		k.r.count("columns not followed", 1)
		return
	}
	k.r.count("catalog columns", 1)
	cols := unconv(n.Args[0].Loop.Coll)
	if cols.Op == "field" && cols.S == "Columns" {
		tab := cols.Args[0]
		get := tab
		if get.Op == "res" {
			get = get.Args[0]
		}
		if get.Op == "mapget" {
			key := get.Args[1]
			t := unconv(tb.Val)
			if !(a.sameVal(t, key) || t.Op == "field" && t.S == "Name" && a.sameVal(t.Args[0], tab)) && (t.Op == "field" || t.Op == "const") {
				k.at(tb, "a column is filed under another table than the one it is read from")
			}
		}
	}
	// the entry it is found by
	for _, h := range sortedObjs(a.heap) {
		if h.Op != "obj" || h.Fr == nil || rootOf(h.Fr) != k.c.Run || !k.inParser(h.Fr) {
			continue
		}
		st := structOf(h.T)
		if st == nil || h == o || namedOf(h.T) == "" {
			continue
		}
		holds := false
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			for _, s := range a.heap[h][st.Field(i).Name()] {
				for _, it := range a.seqOf(s.Val).Items {
					if !it.Splat && len(it.Loops) == 0 && it.Body == o {
						holds = true
					}
				}
			}
		}
		if !holds {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if b, ok := st.Field(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			s := a.only(h, st.Field(i).Name())
			if s == nil {
				continue
			}
			k.r.count("entries of catalog columns", 1)
			v := unconv(s.Val)
			if v != n && !a.sameVal(v, n) && (v.Op == "field" || v.Op == "const") {
				k.at(s, "a column of the catalog is found under another name than its own")
			}
		}
	}
	_ = w
}

// final: one way a lookup can answer.
type final struct {
	v  *Term
	fs []Fact
	qs []Quant
}

func (k *p26) finals(t *Term, d int) []final {
	a := k.w.A
	cl, idx := t, 0
	if t.Op == "res" {
		cl, idx = t.Args[0], t.Idx
	}
	if cl.Op != "call" || len(cl.Inls) == 0 || d > 5 {
		return []final{{v: t}}
	}
	var res []final
	for _, fr := range cl.Inls {
		outs, ok := a.outcomes(fr)
		if !ok {
			return []final{{v: t}}
		}
		slot := errSlot(fr.Fn.Signature)
		for _, o := range outs {
			if idx >= len(o.Vals) || slot >= 0 && idx != slot && o.Ret != nil && cfgOf(fr.Fn).retKind(o.Ret) == retErr {
				continue
			}
			for _, x := range k.finals(o.Vals[idx], d+1) {
				res = append(res, final{x.v, append(append([]Fact{}, o.Facts...), x.fs...), append(append([]Quant{}, o.Alls...), x.qs...)})
			}
		}
	}
	return res
}

// checkLookup: what the columns referred to are looked up by.
func (k *p26) checkLookup(coll *Term, at, ty *StoreRec) {
	a := k.w.A
	cl := coll
	if cl.Op == "res" {
		cl = cl.Args[0]
	}
	if cl.Op != "call" {
		k.r.count("lookups not followed", 1)
		return
	}
	// the column asked for
	var asked *Term
	for _, x := range cl.Args {
		if x.T != nil && namedOf(x.T) == dparserPkg+".FieldColumn" {
			asked = x
		}
		if x.Op == "field" && x.Args[0].T != nil && namedOf(x.Args[0].T) == dparserPkg+".FieldColumn" {
			asked = x.Args[0]
		}
	}
	if asked == nil {
		k.r.count("lookups not followed", 1)
		return
	}
	is := func(t *Term, f string) bool {
		t = unconv(t)
		return t.Op == "field" && t.S == f && (t.Args[0] == asked || a.sameVal(t.Args[0], asked))
	}
	if ty != nil {
		t := unconv(ty.Val)
		if t.Op == "const" || t.Op == "field" && !is(t, "Type") {
			k.at(ty, "a column is not recorded with the type of the reference to it")
		}
	}
	for _, f := range k.finals(coll, 0) {
		v := unconv(f.v)
		if v.Op != "field" || v.Args[0].Op != "elem" || v.Args[0].Loop == nil || v.Args[0].Loop.Coll == nil {
			continue
		}
		k.r.count("ways a column is found", 1)
		entry := v.Args[0]
		named := false
		for _, x := range f.fs {
			if x.T.Op != "binop" || !(x.T.S == "==" && x.True || x.T.S == "!=" && !x.True) {
				if x.T.Op == "call" && x.T.Callee == "strings.EqualFold" && x.True {
					named = true
				}
				continue
			}
			p, q := unconv(x.T.Args[0]), unconv(x.T.Args[1])
			for i := 0; i < 2; i++ {
				if is(p, "Name") && q.Op == "field" && q.Args[0] == entry {
					named = true
				}
				p, q = q, p
			}
		}
		if !named {
			k.at(at, "a column may be taken for one of another name")
			continue
		}
		k.checkScope(entry.Loop.Coll, f, is, at)
	}
}

// own: the map holds the columns of the tables of this very scope (it is filled from the catalog); outer: it is handed
// in from the scopes around.
func (k *p26) scopeOf(m *Term) (own, outer bool) {
	a := k.w.A
	for m.Op == "elem" && m.Loop != nil && m.Loop.Coll != nil {
		m = m.Loop.Coll
	}
	if m.Op != "field" {
		return false, false
	}
	for _, x := range a.resolve(m) {
		if x.Op == "makemap" && len(a.heap[x]["[]"]) > 0 {
			for _, s := range a.heap[x]["[]"] {
				if k.mentions(s.Val, "Columns") || k.mentionsObj(s.Val) {
					own = true
				}
			}
		}
	}
	return own, !own
}

func (k *p26) mentionsObj(t *Term) bool {
	got := false
	k.w.A.reach(t, func(y *Term) bool {
		if y.Op == "mapget" && y.T != nil && strings.Contains(y.T.String(), "dparser.TableSchema") {
			got = true
		}
		return !got
	})
	return got
}

func (k *p26) checkScope(coll *Term, f final, is func(*Term, string) bool, at *StoreRec) {
	a := k.w.A
	for _, g := range k.finals(coll, 0) {
		v := g.v
		if v.Op == "res" && v.Args[0].Op == "mapget" {
			v = v.Args[0]
		}
		if v.Op != "mapget" {
			k.r.count("scopes not followed", 1)
			continue
		}
		own, outer := k.scopeOf(v.Args[0])
		key := unconv(v.Args[1])
		if own && is(key, "Table") && !k.byAlias(v.Args[0]) {
			k.at(at, "the name in front of a column is not taken as the alias of a table")
		}
		if !outer {
			k.r.count("scopes", 1)
			continue
		}
		// the scope's own tables were searched first
		failed := false
		no := func(x Fact) {
			if x.True && x.T.Op == "binop" && x.T.S == "==" {
				return
			}
			neg := !x.True
			if x.T.Op == "binop" && (x.T.S == "!=" || x.T.S == "==") {
				neg = x.True == (x.T.S == "!=")
			}
			if !neg {
				return
			}
			a.reach(x.T, func(y *Term) bool {
				if y.Op == "field" && y.T != nil {
					if _, ok := y.T.Underlying().(*types.Map); ok && y != v.Args[0] {
						if o, _ := k.scopeOf(y); o || k.aliases(y) {
							failed = true
						}
					}
				}
				return !failed
			})
		}
		for _, x := range append(append([]Fact{}, f.fs...), g.fs...) {
			no(x)
		}
		for _, q := range append(append([]Quant{}, f.qs...), g.qs...) {
			if q.Loop.Coll != nil {
				a.reach(q.Loop.Coll, func(y *Term) bool {
					if y.Op == "field" {
						if o, _ := k.scopeOf(y); o {
							failed = true
						}
					}
					return !failed
				})
			}
		}
		k.r.count("scopes", 1)
		if !failed {
			k.at(at, "a column may be taken for one of a scope around though the query's own tables have it")
		}
	}
}

// byAlias: the map of tables is keyed by what the query calls them.
func (k *p26) byAlias(m *Term) bool {
	a := k.w.A
	for _, x := range a.resolve(m) {
		for _, s := range a.heap[x]["[]"] {
			if s.Key != nil && k.mentions(s.Key, "AsName") {
				return true
			}
		}
	}
	return false
}

// aliases: a map from what the query calls tables to their names.
func (k *p26) aliases(m *Term) bool {
	if m.T == nil {
		return false
	}
	mt, ok := m.T.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := mt.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// checkAliases: names are filed under the alias of the same table.
func (k *p26) checkAliases() {
	a := k.w.A
	for _, m := range sortedObjs(a.heap) {
		if m.Op != "makemap" || m.Fr == nil || rootOf(m.Fr) != k.c.Run || !k.inParser(m.Fr) || !k.aliases(m) {
			continue
		}
		for _, s := range a.heap[m]["[]"] {
			v := unconv(s.Val)
			if v.Op != "field" || v.S != "Name" || v.Args[0].T == nil || namedOf(v.Args[0].T) != dparserPkg+".Table" || s.Key == nil {
				continue
			}
			k.r.count("names of tables", 1)
			ok := false
			a.reach(s.Key, func(y *Term) bool {
				if y.Op == "field" && y.S == "AsName" && (y.Args[0] == v.Args[0] || a.sameVal(y.Args[0], v.Args[0])) {
					ok = true
				}
				return !ok
			})
			if !ok {
				k.at(s, "a table is not found by its alias")
			}
		}
	}
}

// checkRecording: a column recorded twice is kept once, as a condition if it is one anywhere.
func (k *p26) checkRecording() {
	a, w := k.w.A, k.w
	seen := map[*ssa.Function]bool{}
	ways := map[*Frame]bool{}
	sites := map[ssa.Instruction]bool{}
	for _, m := range sortedObjs(a.heap) {
		if m.Op != "makemap" || m.Fr == nil || rootOf(m.Fr) != k.c.Run || m.T == nil {
			continue
		}
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			continue
		}
		sl, ok := mt.Elem().Underlying().(*types.Slice)
		if !ok || namedOf(sl.Elem()) != dparserPkg+".FieldColumn" {
			continue
		}
		for _, s := range a.heap[m]["[]"] {
			if s.Fr == nil || !k.inParser(s.Fr) {
				continue
			}
			if _, ok := s.In.(*ssa.MapUpdate); !ok {
				continue
			}
			if !ways[s.Fr] {
				ways[s.Fr] = true
				k.checkReached(s.Fr, sites)
			}
			if seen[s.Fr.Fn] {
				continue
			}
			seen[s.Fr.Fn] = true
			k.checkRecord(s.Fr)
		}
	}
	_ = w
}

func (k *p26) checkRecord(fr *Frame) {
	a, w := k.w.A, k.w
	outs, ok := a.outcomes(fr)
	if !ok {
		k.r.count("recordings not followed", 1)
		return
	}
	var fresh, repl []ssa.Instruction
	for _, b := range fr.Fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				fresh = append(fresh, in)
			case *ssa.Store:
				switch ad := x.Addr.(type) {
				case *ssa.IndexAddr:
					if _, arr := ad.X.Type().Underlying().(*types.Slice); arr && namedOf(x.Val.Type()) == dparserPkg+".FieldColumn" {
						repl = append(repl, in)
					}
				case *ssa.FieldAddr:
					if namedOf(x.Val.Type()) == dparserPkg+".FieldType" {
						repl = append(repl, in)
					}
				}
			}
		}
	}
	hit := func(o Out, ins []ssa.Instruction) bool {
		for _, in := range ins {
			if o.Seen[in.Block()] {
				return true
			}
		}
		return false
	}
	isCol := func(t *Term) bool {
		return t.Op == "field" && t.S == "Name" && t.Args[0].T != nil && namedOf(t.Args[0].T) == dparserPkg+".FieldColumn"
	}
	sameName := func(f Fact) (old, niu *Term, eq bool) {
		if f.T.Op != "binop" || f.T.S != "==" && f.T.S != "!=" {
			return
		}
		x, y := unconv(f.T.Args[0]), unconv(f.T.Args[1])
		if !isCol(x) || !isCol(y) {
			return
		}
		x, y = x.Args[0], y.Args[0]
		if x.Op != "elem" || x.Loop == nil || !isAncestor(fr, x.Loop.Fr) {
			x, y = y, x
		}
		return x, y, f.True == (f.T.S == "==")
	}
	for _, o := range outs {
		k.r.count("ways to record a column", 1)
		var old, niu *Term
		for _, f := range o.Facts {
			if x, y, eq := sameName(f); x != nil && eq {
				old, niu = x, y
			}
		}
		where := w.P.pos(fr.Fn.Pos())
		if old == nil {
			none := false
			for _, q := range o.Alls {
				all := len(q.Alts) > 0
				for _, x := range q.Alts {
					if !x.known(func(f Fact) bool { p, _, eq := sameName(f); return p != nil && !eq }) {
						all = false
					}
				}
				if all {
					none = true
				}
			}
			if none && len(fresh) > 0 && !hit(o, fresh) {
				k.r.failAt(where, fr.String(), "a column may not be recorded though it was not before")
				return
			}
			continue
		}
		of := func(x *Term) func(*Term) bool {
			return func(t *Term) bool { return t.Op == "field" && (t.Args[0] == x || a.sameVal(t.Args[0], x)) }
		}
		if hit(o, fresh) && !hit(o, repl) && k.appends(o, fresh) {
			k.r.failAt(where, fr.String(), "a column referred to twice is recorded twice")
			return
		}
		if canBe(o.Facts, of(old), 0) && canBe(o.Facts, of(niu), 1) && !hit(o, repl) && !hit(o, fresh) {
			k.r.failAt(where, fr.String(), "a column that is a value first and a condition afterwards is not taken as a condition")
			return
		}
		if canBe(o.Facts, of(old), 1) && canBe(o.Facts, of(niu), 0) && hit(o, repl) {
			k.r.failAt(where, fr.String(), "a column that is a condition first and a value afterwards is no longer taken as a condition")
			return
		}
	}
}

// appends: the map update adds to what is there.
func (k *p26) appends(o Out, fresh []ssa.Instruction) bool {
	for _, in := range fresh {
		mu := in.(*ssa.MapUpdate)
		if !o.Seen[in.Block()] {
			continue
		}
		if c, ok := mu.Value.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return true
			}
		}
	}
	return false
}

// checkTable: what a candidate is made of.
func (k *p26) checkTables() {
	a, w := k.w.A, k.w
	for _, o := range w.objsOf(k.c, dparserPkg+".IndexTargetTable") {
		tb, fs := a.only(o, "TableName"), a.only(o, "IndexFields")
		if tb == nil || fs == nil {
			continue
		}
		k.r.count("candidates", 1)
		t := unconv(tb.Val)
		if t.Op != "mapkey" {
			k.r.count("candidates not followed", 1)
			continue
		}
		// the fields come from what is filed under the same key, the primary key too
		from, other := false, ""
		a.reach(fs.Val, func(y *Term) bool {
			switch {
			case y.Op == "mapelem" && y.Loop == t.Loop:
				from = true
			case y.Op == "elem" && y.Loop == t.Loop:
				from = true
			case y.Op == "mapget" && y.T != nil && strings.Contains(y.T.String(), "dparser.TableSchema") && y.Fr == nil:
				if key := unconv(y.Args[1]); key != t && !a.sameVal(key, t) && k.readsKey(fs.Val, y) {
					other = "the primary key of another table decides about a candidate"
				}
			}
			return true
		})
		if other != "" {
			k.at(fs, "%s", other)
		}
		_ = from
	}
	// candidates become suggestions as they are
	for _, o := range w.objsOf(k.c, "github.com/mrasu/GravityR/database/dmodel.IndexTarget") {
		cols, tb := a.heap[o]["Columns"], a.only(o, "TableName")
		if len(cols) == 0 || tb == nil {
			continue
		}
		for _, it := range a.seqOf(cols[len(cols)-1].Val).Items {
			if len(it.Loops) != 1 || it.Loops[0].Coll == nil {
				continue
			}
			src := unconv(it.Loops[0].Coll)
			if src.Op != "field" || src.S != "IndexFields" {
				continue
			}
			k.r.count("suggestions made of candidates", 1)
			t := unconv(tb.Val)
			if !(t.Op == "field" && t.S == "TableName" && (t.Args[0] == src.Args[0] || a.sameVal(t.Args[0], src.Args[0]))) {
				k.at(tb, "a suggestion does not name the table of its candidate")
			}
			if it.Rev || it.Part || it.Uniq || it.Loops[0].Part || it.Loops[0].Rev || len(it.Conds) > 0 {
				k.at(cols[len(cols)-1], "a suggestion does not have all columns of its candidate in their order")
			}
			b := it.Body
			if b.Op == "obj" {
				if nm := a.only(b, "Name"); nm != nil {
					v := unconv(nm.Val)
					if !(v.Op == "field" && v.S == "Name" && v.Args[0].Op == "elem" && v.Args[0].Loop == it.Loops[0]) {
						k.at(nm, "a column of a suggestion is not named like the candidate's")
					}
				}
			}
		}
	}
	for _, o := range w.objsOf(k.c, dparserPkg+".IndexField") {
		nm, ty := a.only(o, "Name"), a.only(o, "Type")
		if nm == nil || ty == nil {
			continue
		}
		k.r.count("columns of candidates", 1)
		n, t := unconv(nm.Val), unconv(ty.Val)
		if n.Op != "field" || n.S != "Name" {
			continue
		}
		if t.Op != "field" || t.S != "Type" || t.Args[0] != n.Args[0] && !a.sameVal(t.Args[0], n.Args[0]) {
			k.at(ty, "a column of a candidate does not have the type of the column it is named after")
		}
	}
}

func (k *p26) readsKey(t, get *Term) bool {
	got := false
	k.w.A.reach(t, func(y *Term) bool {
		if y.Op == "field" && y.S == "PrimaryKeys" {
			b := y.Args[0]
			if b.Op == "res" {
				b = b.Args[0]
			}
			if b == get {
				got = true
			}
		}
		return !got
	})
	return got
}

// checkReached: every column found is recorded: no pass on the way to the recording leaves any out.
func (k *p26) checkReached(fr *Frame, sites map[ssa.Instruction]bool) {
	a, w := k.w.A, k.w
	reason := func(o Out) bool {
		return o.known(func(f Fact) bool {
			_, _, _, ty := typeTest(f)
			return ty || absent(f)
		})
	}
	for f := fr; f.Parent != nil && k.inParser(f.Parent) || f.CBLoop != nil; f = f.Parent {
		site := f.Site
		p := f.Parent
		if p == nil || site == nil {
			return
		}
		if p.Fn.Name() == "Build" {
			return
		}
		if sites[site] {
			continue
		}
		sites[site] = true
		bad := func(why string) {
			k.r.failAt(w.P.pos(site.Pos()), p.String(), "columns the query refers to may not be taken into account (%s)", why)
		}
		inLoop := false
		for _, l := range cfgOf(p.Fn).loops {
			if !l.Blocks[site.Block()] {
				continue
			}
			inLoop = true
			lc := p.loopCtx(l)
			if lc.Part {
				bad("a pass may end early")
				continue
			}
			done, _, ok := a.turns(lc)
			if !ok {
				k.r.count("passes not followed", 1)
				continue
			}
			k.r.count("passes", 1)
			for _, o := range done {
				if !o.Seen[site.Block()] && !reason(o) && !k.innerEmpty(o, l, site, p) {
					bad("a pass may leave some out")
					break
				}
			}
		}
		if inLoop {
			continue
		}
		outs, ok := a.outcomes(p)
		if !ok {
			continue
		}
		for _, o := range outs {
			if o.Ret != nil && cfgOf(p.Fn).retKind(o.Ret) == retErr {
				continue
			}
			if !o.Seen[site.Block()] && !reason(o) && (len(o.Facts) > 0) {
				bad("they may be passed over")
				break
			}
		}
	}
}

// innerEmpty: the site is in an inner pass, which need not have any turn.
func (k *p26) innerEmpty(o Out, l *Loop, site ssa.Instruction, f *Frame) bool {
	for _, x := range cfgOf(f.Fn).loops {
		if x != l && x.Blocks[site.Block()] && l.Blocks[x.Header] && o.Seen[x.Header] {
			return true
		}
	}
	return false
}

// checkVisible: which columns of the scopes around a subquery can refer to.
func (k *p26) checkVisible() {
	a, w := k.w.A, k.w
	for _, o := range sortedObjs(a.heap) {
		if o.Op != "obj" || o.Fr == nil || rootOf(o.Fr) != k.c.Run || !k.inParser(o.Fr) || structOf(o.T) == nil {
			continue
		}
		st := structOf(o.T)
		kind := ""
		for i := 0; i < st.NumFields(); i++ {
			if namedOf(st.Field(i).Type()) != dparserPkg+".StmtScope" {
				continue
			}
			if s := a.only(o, st.Field(i).Name()); s != nil {
				v := unconv(s.Val)
				if v.Op == "elem" && v.Loop != nil && v.Loop.Coll != nil && v.Loop.Coll.Op == "field" {
					kind = v.Loop.Coll.S
				}
			}
		}
		if kind != "SubScopes" && kind != "FieldScopes" {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			name := st.Field(i).Name()
			s := a.only(o, name)
			if s == nil || !k.colsType(st.Field(i).Type()) {
				continue
			}
			k.r.count("subqueries", 1)
			for _, e := range a.edges(s.Val) {
				visible, outer := k.sees(e.T, name, st)
				lateral, plain := false, false
				for _, f := range a.edgeFacts(e, nil) {
					if t := unconv(f.T); t.Op == "field" && t.S == "IsLateral" {
						lateral, plain = lateral || f.True, plain || !f.True
					}
				}
				if !visible && !outer {
					if kind == "FieldScopes" && k.fresh(e.T) {
						k.at(s, "a subquery cannot refer to columns of the scopes around")
					}
					continue
				}
				k.r.count("scopes around subqueries", 1)
				switch {
				case kind == "FieldScopes" && !visible:
					k.at(s, "a subquery used as a value cannot refer to columns of the scope around")
				case !outer:
					k.at(s, "a subquery cannot refer to columns of the outer scopes")
				case kind == "SubScopes" && visible && !lateral:
					k.at(s, "a subquery in FROM which is not LATERAL refers to columns of the tables beside it")
				case kind == "SubScopes" && !visible && lateral && !plain:
					k.at(s, "a LATERAL subquery cannot refer to columns of the tables beside it")
				}
			}
		}
	}
	_ = w
}

func (k *p26) fresh(t *Term) bool { return t.Op == "nil" || t.Op == "const" }

// colsType: columns by table, or several of these.
func (k *p26) colsType(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := namedOf(s.Elem())
	return strings.HasPrefix(n, dparserPkg+".") && n != dparserPkg+".FieldColumn"
}

// sees: whether the columns are those of the scope's own tables, and of the scopes around it.
func (k *p26) sees(t *Term, field string, st *types.Struct) (visible, outer bool) {
	a := k.w.A
	a.reach(t, func(y *Term) bool {
		if y.Op == "field" && y.S == field && structOf(y.Args[0].T) == st {
			outer = true
			return false
		}
		g := y
		if g.Op == "res" {
			g = g.Args[0]
		}
		if g.Op == "mapget" {
			if own, _ := k.scopeOf(g.Args[0]); own {
				visible = true
			}
			return false
		}
		return true
	})
	return
}

// checkPermutations: no column stands in a candidate twice, and none is lost for the next ones.
func (k *p26) checkPermutations() {
	a, w := k.w.A, k.w
	seen := map[*ssa.Function]bool{}
	for _, o := range w.objsOf(k.c, dparserPkg+".IndexField") {
		if !k.inParser(o.Fr) || seen[o.Fr.Fn] {
			continue
		}
		seen[o.Fr.Fn] = true
		sc := selfCall(o.Fr.Fn)
		if sc == nil {
			continue
		}
		for _, l := range cfgOf(o.Fr.Fn).loops {
			if !l.Blocks[sc.Block()] {
				continue
			}
			lc := o.Fr.loopCtx(l)
			if lc.Coll == nil {
				continue
			}
			vals := lc.Coll
			if vals.Op != "call" || !strings.HasSuffix(vals.Callee, ").Values") || len(vals.Args) == 0 {
				continue
			}
			set := vals.Args[0]
			same := false
			for _, x := range sc.Call.Args {
				if o.Fr.eval(x) == set {
					same = true
				}
			}
			if !same {
				continue
			}
			k.r.count("permutations", 1)
			var gone, back bool
			for b := range l.Blocks {
				for _, in := range b.Instrs {
					cl, ok := in.(*ssa.Call)
					if !ok || cl == sc || len(cl.Call.Args) < 2 {
						continue
					}
					fn := cl.Call.StaticCallee()
					if fn == nil || o.Fr.eval(cl.Call.Args[0]) != set {
						continue
					}
					el := o.Fr.eval(cl.Call.Args[1])
					if el.Op != "elem" || el.Loop != lc {
						continue
					}
					switch shortFn(fn) {
					case "Delete":
						gone = gone || comesBefore(in, sc)
					case "Add":
						back = back || comesBefore(sc, in)
					}
				}
			}
			if !gone {
				k.r.failAt(w.P.pos(sc.Pos()), o.Fr.String(), "a column may stand in a candidate twice")
			} else if !back {
				k.r.failAt(w.P.pos(sc.Pos()), o.Fr.String(), "a column is lost for the following candidates")
			}
		}
	}
	_ = a
}

func shortFn(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Name()
}

// comesBefore: y is reached through x only.
func comesBefore(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() {
		return precedes(x, y)
	}
	return x.Block().Dominates(y.Block())
}

// idxConst: an entry at a fixed place.
func (t *Term) idxConst() (int64, bool) {
	for t.Op == "load" || t.Op == "deref" {
		t = t.Args[0]
	}
	if t.Op != "index" || len(t.Args) != 2 {
		return 0, false
	}
	i := t.Args[1]
	if i.Op == "binop" && i.S == "+" {
		x, ok := i.Args[0].isConstInt()
		y, ok2 := i.Args[1].isConstInt()
		return x + y, ok && ok2
	}
	return i.isConstInt()
}
