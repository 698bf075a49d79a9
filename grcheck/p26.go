package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P26", "Flow of names into suggested indexes. Every candidate is the table key and all index fields, in order, of one candidate table; every pass between the scopes and the candidates leaves elements out only for their type or for consisting of primary key columns (path enumeration of each turn of each pass). A column's table and name come from one catalog column of the very table it is filed under; a lookup answers with an entry whose name equals the one asked for, in outer scopes only after the inner one failed; a subquery sees the scope around it unless it is a table which is not LATERAL; recording a column twice keeps one entry, a condition if either is.", checkP26)
}

const dparserPkg = "github.com/mrasu/GravityR/database/dservice/dparser"

// p26 follows suggested indexes back to the columns of the query.
type p26 struct {
	w    *World
	c    *Command
	r    *Report
	seen map[*Term]bool
	its  []*SeqItem
}

func (k *p26) walk(t *Term, d int) {
	if k.seen[t] || d > 14 {
		return
	}
	k.seen[t] = true
	for _, it := range k.w.A.seqOf(t).Items {
		k.its = append(k.its, it)
		if it.Splat {
			k.walk(it.Body, d+1)
		}
		for _, l := range it.Loops {
			if l.Coll != nil {
				k.walk(l.Coll, d+1)
			}
		}
	}
}

func (k *p26) mentions(t *Term, fields ...string) bool {
	got := false
	k.w.A.reach(t, func(y *Term) bool {
		if y.Op == "field" || y.Op == "addr" {
			for _, f := range fields {
				if y.S == f {
					got = true
				}
			}
		}
		return !got
	})
	return got
}

func (o Out) all(f func(Fact)) {
	for _, x := range o.Facts {
		f(x)
	}
	for _, q := range o.Alls {
		for _, y := range q.Alts {
			y.all(f)
		}
	}
}

// typeOf: what is known about the type of a column.
func typeTest(f Fact) (of *Term, v int64, eq, ok bool) {
	if f.T.Op != "binop" || f.T.S != "==" && f.T.S != "!=" {
		return
	}
	x, y := f.T.Args[0], f.T.Args[1]
	n, isC := y.isConstInt()
	if !isC {
		x, y = y, x
		n, isC = y.isConstInt()
	}
	for x.Op == "conv" || x.Op == "chtype" {
		x = x.Args[0]
	}
	if !isC || x.Op != "field" && x.Op != "load" || x.T == nil || !strings.HasSuffix(x.T.String(), "dparser.FieldType") {
		return
	}
	return x, n, f.True == (f.T.S == "=="), true
}

// canBe: the facts leave open that the column's type is v.
func canBe(fs []Fact, of func(*Term) bool, v int64) bool {
	for _, f := range fs {
		if t, n, eq, ok := typeTest(f); ok && (of == nil || of(t)) && eq != (n == v) {
			return false
		}
	}
	return true
}

// pkTest: a test whether a column is one of the primary key's.
func (k *p26) pk(f Fact) bool {
	t := f.T
	if b, ok := t.T.Underlying().(*types.Basic); t.T == nil || !ok || b.Kind() != types.Bool && b.Kind() != types.UntypedBool {
		return false
	}
	if t.Op == "binop" {
		if isIntT(t.Args[0]) || isIntT(t.Args[1]) {
			return false // types or lengths
		}
		return t.S == "==" && k.mentions(t, "PrimaryKeys")
	}
	return k.mentions(t, "PrimaryKeys")
}

// checkPass: which elements of a pass are left out.
func (k *p26) checkPass(it *SeqItem) {
	a, r := k.w.A, k.r
	if it.Part {
		k.bad(it, "some candidates may be left out (a pass may end early)")
		return
	}
	for _, l := range it.Loops {
		if l.Part {
			k.bad(it, "some candidates may be left out (a pass may end early)")
			return
		}
	}
	if len(it.Loops) == 0 || it.At == nil {
		return
	}
	l := it.Loops[len(it.Loops)-1]
	if l.L == nil || l.Fr != it.Fr {
		for _, cd := range it.Conds {
			if !a.dropsOnly(cd, func(f Fact) bool {
				_, _, _, ty := typeTest(f)
				return ty || absent(f) || k.mentions(f.T, "PrimaryKeys", "Type")
			}) {
				k.bad(it, "some candidates may be left out for another reason than their columns' types or the primary key")
			}
		}
		return
	}
	done, _, ok := a.turns(l)
	if !ok {
		r.count("passes not followed", 1)
		return
	}
	r.count("passes", 1)
	for _, o := range done {
		hit := o.Seen[it.At.Block()]
		r.count("ways through passes", 1)
		var in, out, ref, lens bool
		o.all(func(f Fact) {
			if k.pk(f) {
				in, out = in || f.True, out || !f.True
			}
			if _, n, eq, ok := typeTest(f); ok && eq == (n == 0) {
				ref = true
			}
			if f.T.Op == "binop" && isIntT(f.T.Args[0]) && k.countish(f.T) {
				lens = true
			}
		})
		// what decides
		var ty, isRef, other, oneIn, oneOut bool
		for _, f := range o.Facts {
			if k.pk(f) && len(f.Loops) == 0 {
				oneIn, oneOut = oneIn || f.True, oneOut || !f.True
			}
			if _, n, eq, ok := typeTest(f); ok {
				ty = true
				if eq == (n == 0) {
					isRef = true
				}
			}
			if absent(f) || f.T.Op == "binop" && (isErrorSlotT(f.T.Args[0]) || isErrorSlotT(f.T.Args[1])) {
				other = true
			}
		}
		switch {
		case !hit && oneOut:
			k.bad(it, "a candidate is left out though one of its columns is not of the primary key")
			return
		case !hit && oneIn && !k.someQuant(o):
			k.bad(it, "a candidate is left out as soon as one of its columns is of the primary key")
			return
		case hit && in && !out && !k.someOut(o):
			k.bad(it, "a candidate made of primary key columns alone is not left out")
			return
		case hit || in || other:
		case !ty:
			k.bad(it, "some candidates may be left out for another reason than their columns' types or the primary key")
			return
		case k.overFields(l):
			if !isRef {
				k.bad(it, "a candidate may be left out though all of its columns are conditions")
				return
			}
		case canBe(o.Facts, nil, 1):
			k.bad(it, "columns which are conditions are left out")
			return
		case canBe(o.Facts, nil, 0):
			k.bad(it, "columns which are values are left out")
			return
		}
		if hit && ref && !lens && k.overFields(l) {
			k.bad(it, "a candidate with columns which are only values is kept though it may not have all columns of its table")
			return
		}
	}
}

// overFields: the elements of the pass are candidates (lists of index fields).
func (k *p26) overFields(l *LoopCtx) bool {
	if l.Coll == nil || l.Coll.T == nil {
		return false
	}
	s, ok := l.Coll.T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e, ok := s.Elem().Underlying().(*types.Slice)
	return ok && namedOf(e.Elem()) == dparserPkg+".IndexField"
}

func (k *p26) someOut(o Out) bool {
	// no element at all: nothing is known
	for _, q := range o.Alls {
		for _, x := range q.Alts {
			if x.known(func(f Fact) bool { return k.pk(f) && !f.True }) {
				return true
			}
		}
	}
	return false
}

// someQuant: a pass over the columns came to its end.
func (k *p26) someQuant(o Out) bool {
	for _, q := range o.Alls {
		for _, x := range q.Alts {
			if x.known(k.pk) {
				return true
			}
		}
	}
	return false
}

func isIntT(t *Term) bool {
	if t.T == nil {
		return false
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (k *p26) countish(t *Term) bool {
	for _, x := range t.Args {
		if x.Op == "call" && (x.Callee == "len" || strings.HasSuffix(x.Callee, ").Count")) {
			return true
		}
	}
	return false
}

func (k *p26) bad(it *SeqItem, f string, args ...any) {
	where, path := "", ""
	if it.At != nil {
		where = k.w.P.pos(it.At.Pos())
	}
	if it.Fr != nil {
		path = it.Fr.String()
	}
	k.r.failAt(where, path, f, args...)
}

func checkP26(w *World, r *Report) {
	w.checkCollections(r)
	a := w.A
	built := 0
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			continue
		}
		k := &p26{w: w, c: c, r: r, seen: map[*Term]bool{}}
		for _, e := range c.events {
			if strings.HasSuffix(e.Callee, "dparser.IndexTargetBuilder).Build") && len(e.Call.Inls) > 0 {
				built++
				k.walk(a.mk("res", "", 0, nil, e.Call), 0)
			}
		}
		done := map[ssa.Instruction]bool{}
		for _, it := range k.its {
			if it.At != nil && strings.Contains(it.Fr.String(), "") && !done[it.At] && k.inParser(it.Fr) {
				done[it.At] = true
				k.checkPass(it)
			}
		}
		k.checkTables()
		k.checkColumns()
		k.checkAliases()
		k.checkRecording()
		k.checkVisible()
		k.checkPermutations()
	}
	if built == 0 {
		r.missing("the building of candidates (IndexTargetBuilder.Build)")
	}
}

func (k *p26) inParser(f *Frame) bool {
	return f != nil && f.Fn.Pkg != nil && f.Fn.Pkg.Pkg.Path() == dparserPkg
}
