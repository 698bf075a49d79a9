package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TPart is a piece of a string: literal text, a hole filled at run time, or a repetition.
type TPart struct {
	Lit  string
	Hole *Term
	Verb string
	Rep  *TRep
}

type TRep struct {
	Sep   string
	Body  Tmpl
	Item  *SeqItem
	Loops []*LoopCtx
	Conds []Cond
	Part  bool
	Rev   bool
	Uniq  bool
}

type Tmpl []TPart

func (t Tmpl) String() string {
	var sb strings.Builder
	for _, p := range t {
		switch {
		case p.Rep != nil:
			fmt.Fprintf(&sb, "⟪%s⟫sep%q", p.Rep.Body.String(), p.Rep.Sep)
		case p.Hole != nil:
			fmt.Fprintf(&sb, "⟨%s⟩", p.Hole)
		default:
			sb.WriteString(p.Lit)
		}
	}
	return sb.String()
}

func lit(s string) Tmpl { return Tmpl{{Lit: s}} }

func (t Tmpl) add(o Tmpl) Tmpl {
	res := append(Tmpl{}, t...)
	for _, p := range o {
		if p.Hole == nil && p.Rep == nil {
			if p.Lit == "" {
				continue
			}
			if n := len(res); n > 0 && res[n-1].Hole == nil && res[n-1].Rep == nil {
				res[n-1].Lit += p.Lit
				continue
			}
		}
		res = append(res, p)
	}
	return res
}

// prefix returns the literal text the template starts with.
func (t Tmpl) prefix() string {
	if len(t) > 0 && t[0].Hole == nil && t[0].Rep == nil {
		return t[0].Lit
	}
	return ""
}

func (t Tmpl) isConst() (string, bool) {
	if len(t) == 0 {
		return "", true
	}
	if len(t) == 1 && t[0].Hole == nil && t[0].Rep == nil {
		return t[0].Lit, true
	}
	return "", false
}

func (t Tmpl) holes() []*Term {
	var res []*Term
	for _, p := range t {
		if p.Hole != nil {
			res = append(res, p.Hole)
		}
		if p.Rep != nil {
			res = append(res, p.Rep.Body.holes()...)
		}
	}
	return res
}

const maxTmpl = 32

type tmplCtx struct {
	a    *Analysis
	seen map[*Term]bool
}

// tmpls lists the shapes a string value can take.
func (a *Analysis) tmpls(t *Term) []Tmpl {
	return (&tmplCtx{a, map[*Term]bool{}}).eval(t)
}

func cross(xs, ys []Tmpl) []Tmpl {
	var res []Tmpl
	for _, x := range xs {
		for _, y := range ys {
			if len(res) >= maxTmpl {
				return res
			}
			res = append(res, x.add(y))
		}
	}
	return res
}

func (c *tmplCtx) eval(t *Term) []Tmpl {
	a := c.a
	if c.seen[t] {
		return []Tmpl{{{Hole: t}}}
	}
	if t.Op == "phi" {
		if r := c.loopConcat(t); r != nil {
			return r
		}
	}
	c.seen[t] = true
	defer delete(c.seen, t)
	alts := a.resolve1(t)
	if len(alts) != 1 || alts[0] != t {
		var res []Tmpl
		for _, x := range alts {
			if x == t {
				res = append(res, Tmpl{{Hole: t}})
				continue
			}
			res = append(res, c.eval(x)...)
			if len(res) > maxTmpl {
				break
			}
		}
		return res
	}
	hole := []Tmpl{{{Hole: t}}}
	if s, ok := t.isConstString(); ok {
		return []Tmpl{lit(s)}
	}
	switch t.Op {
	case "res":
		// sqlx.In keeps the text, multiplying the placeholders of lists
		if x := t.Args[0]; t.Idx == 0 && x.Op == "call" && x.Callee == "github.com/jmoiron/sqlx.In" {
			return c.eval(x.Args[0])
		}
	case "zero":
		if t.T != nil && basicInfo(t.T)&2048 == 0 { // not a string
			return hole
		}
		return []Tmpl{{}}
	case "binop":
		if t.S == "+" {
			return cross(c.eval(t.Args[0]), c.eval(t.Args[1]))
		}
	case "conv":
		return c.eval(t.Args[0])
	case "call":
		switch t.Callee {
		case "fmt.Sprintf", "fmt.Errorf", "github.com/pkg/errors.Errorf":
			if r := c.sprintf(t.Args[0], t.Args[1]); r != nil {
				return r
			}
		case "fmt.Sprint":
			if els, ok := a.elements(t.Args[0]); ok && len(els) == 1 {
				return c.eval(els[0])
			}
		case "strings.Join":
			seps := c.eval(t.Args[1])
			if len(seps) != 1 {
				return hole
			}
			sep, ok := seps[0].isConst()
			if !ok {
				return hole
			}
			if r := c.join(t.Args[0], sep); r != nil {
				return r
			}
		case "strings.Replace", "strings.ReplaceAll":
			n := int64(-1)
			if t.Callee == "strings.Replace" {
				v, ok := t.Args[3].isConstInt()
				if !ok {
					return hole
				}
				n = v
			}
			olds := c.eval(t.Args[1])
			if len(olds) != 1 {
				return hole
			}
			old, ok := olds[0].isConst()
			if !ok || old == "" || old == "\\" || old == "'" { // quoting matters
				return hole
			}
			var res []Tmpl
			news := c.eval(t.Args[2])
			for _, s := range c.eval(t.Args[0]) {
				for _, nw := range news {
					res = append(res, replaceTmpl(s, old, nw, n))
				}
			}
			return res
		case "(*github.com/jmoiron/sqlx.DB).Rebind":
			return c.eval(t.Args[1])
		case "github.com/jmoiron/sqlx.Rebind":
			return c.eval(t.Args[1])
		case "strings.TrimSpace":
			// leave: surrounding space never matters to the rules
			return c.eval(t.Args[0])
		case "(*strings.Builder).String", "(*bytes.Buffer).String":
			if r := c.builder(t); r != nil {
				return r
			}
		}
	}
	return hole
}

func replaceTmpl(s Tmpl, old string, nw Tmpl, n int64) Tmpl {
	var res Tmpl
	for _, p := range s {
		if p.Hole != nil || p.Rep != nil {
			res = append(res, p)
			continue
		}
		l := p.Lit
		for n != 0 {
			i := strings.Index(l, old)
			if i < 0 {
				break
			}
			res = res.add(lit(l[:i])).add(nw)
			l = l[i+len(old):]
			n--
		}
		res = res.add(lit(l))
	}
	return res
}

// resolve1 is resolve, leaving concatenating loops to the caller.
func (a *Analysis) resolve1(t *Term) []*Term {
	if t.Op == "phi" {
		return dedup(t.Args)
	}
	return a.resolve(t)
}

func dedup(ts []*Term) []*Term {
	m := map[*Term]bool{}
	for _, t := range ts {
		m[t] = true
	}
	return sortedTerms(m)
}

// elements of a literal (variadic arguments included).
func (a *Analysis) elements(t *Term) ([]*Term, bool) {
	if t.Op == "nil" {
		return nil, true
	}
	rs := a.resolve(t)
	if len(rs) != 1 {
		return nil, false
	}
	if rs[0].Op == "nil" {
		return nil, true
	}
	return a.literal(rs[0])
}

func (c *tmplCtx) sprintf(format, args *Term) []Tmpl {
	fs := c.eval(format)
	if len(fs) != 1 {
		return nil
	}
	f, ok := fs[0].isConst()
	if !ok {
		return nil
	}
	els, ok := c.a.elements(args)
	if !ok {
		return nil
	}
	res := []Tmpl{{}}
	k := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			res = cross(res, []Tmpl{lit(f[i : i+j])})
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.+-# []*", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil
		}
		verb := f[i : j+1]
		i = j + 1
		if verb == "%%" {
			res = cross(res, []Tmpl{lit("%")})
			continue
		}
		if k >= len(els) || els[k] == nil {
			return nil
		}
		if verb == "%s" || verb == "%v" {
			res = cross(res, c.eval(els[k]))
		} else {
			el := els[k]
			switch verb {
			case "%d", "%t", "%x", "%02x":
			default:
				el = c.a.mk("fmt", verb, 0, nil, el) // quoted, cut, padded, rounded: not the value itself
			}
			res = cross(res, []Tmpl{{{Hole: el, Verb: verb}}})
		}
		k++
	}
	return res
}

func (c *tmplCtx) join(coll *Term, sep string) []Tmpl {
	s := c.a.seqOf(coll)
	s.Items = c.a.unroll(s.Items)
	var one Tmpl
	// a literal list of parts
	plain := true
	for _, it := range s.Items {
		if len(it.Loops) > 0 || it.Splat || len(it.Conds) > 0 {
			plain = false
		}
	}
	if plain {
		for i, it := range s.Items {
			b := c.eval(it.Body)
			if len(b) != 1 {
				return nil
			}
			if i > 0 {
				one = one.add(lit(sep))
			}
			one = one.add(b[0])
		}
		return []Tmpl{one}
	}
	for _, it := range s.Items {
		var bodies []Tmpl
		loops := it.Loops
		if it.Splat {
			bodies = []Tmpl{{{Hole: c.a.mk("elem", "", 0, nil, it.Body)}}}
			loops = append(append([]*LoopCtx{}, loops...), &LoopCtx{Coll: it.Body})
		} else {
			bodies = c.eval(it.Body)
		}
		if len(bodies) != 1 {
			return nil
		}
		one = append(one, TPart{Rep: &TRep{Sep: sep, Body: bodies[0], Item: it, Loops: loops, Conds: it.Conds, Part: it.Part, Rev: it.Rev, Uniq: it.Uniq}})
	}
	return []Tmpl{one}
}

// loopConcat recognises s := init; for ... { s += x } (with an optional separator written on all turns but the first).
func (c *tmplCtx) loopConcat(t *Term) []Tmpl {
	ph, ok := t.Val.(*ssa.Phi)
	if !ok || t.Fr == nil {
		return nil
	}
	var l *Loop
	for _, x := range cfgOf(t.Fr.Fn).loops {
		if x.Header == ph.Block() {
			l = x
		}
	}
	if l == nil || basicInfo(ph.Type())&(1<<5) == 0 && ph.Type().Underlying().String() != "string" {
		return nil
	}
	c.seen[t] = true
	defer delete(c.seen, t)
	var inits, steps []Tmpl
	for i, e := range t.Args {
		r := c.eval(e)
		if l.Blocks[ph.Block().Preds[i]] {
			steps = append(steps, r...)
		} else {
			inits = append(inits, r...)
		}
	}
	var bodies []Tmpl
	for _, s := range steps {
		if len(s) == 0 || s[0].Hole != t {
			return nil
		}
		for _, h := range s[1:] {
			if h.Hole == t {
				return nil
			}
		}
		bodies = append(bodies, s[1:])
	}
	lc := t.Fr.loopCtx(l)
	mk := func(sep string, body Tmpl, conds []Cond) []Tmpl {
		var res []Tmpl
		for _, in := range inits {
			res = append(res, append(append(Tmpl{}, in...), TPart{Rep: &TRep{Sep: sep, Body: body, Loops: []*LoopCtx{lc}, Conds: conds, Part: lc.Part, Rev: lc.Rev}}))
		}
		return res
	}
	switch len(bodies) {
	case 1:
		return mk("", bodies[0], nil)
	case 2:
		// with and without a separator in front
		x, y := bodies[0], bodies[1]
		if len(x.String()) < len(y.String()) {
			x, y = y, x
		}
		xs, ys := x.String(), y.String()
		if strings.HasSuffix(xs, ys) && len(x) > 0 && x[0].Hole == nil && x[0].Rep == nil {
			sep := strings.TrimSuffix(xs, ys)
			if strings.HasPrefix(x[0].Lit, sep) {
				return mk(sep, y, nil)
			}
		}
		if len(y) == 0 {
			return mk("", x, []Cond{{Complex: true}})
		}
	}
	return nil
}

// builder collects what was written to a strings.Builder before String was called.
func (c *tmplCtx) builder(t *Term) []Tmpl {
	a := c.a
	objs := a.resolve(t.Args[0])
	if len(objs) != 1 || objs[0].Op != "obj" {
		return nil
	}
	obj := objs[0]
	home := obj.Val.(ssa.Instruction).Block()
	res := []Tmpl{{}}
	var loop *LoopCtx
	var sep string
	var body Tmpl
	var rep *TRep
	flush := func() {
		if loop != nil {
			rep = &TRep{Sep: sep, Body: body, Loops: []*LoopCtx{loop}, Part: loop.Part, Rev: loop.Rev}
			for i := range res {
				res[i] = append(append(Tmpl{}, res[i]...), TPart{Rep: rep})
			}
		}
		loop, sep, body = nil, "", nil
	}
	for _, e := range a.Events {
		if len(e.Args) < 1 {
			continue
		}
		var ps []Tmpl
		switch e.Callee {
		case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte":
			r := a.resolve(e.Args[0])
			if len(r) != 1 || r[0] != obj {
				continue
			}
			if n, ok := e.Args[1].isConstInt(); ok {
				ps = []Tmpl{lit(string(rune(n)))}
			} else {
				ps = c.eval(e.Args[1])
			}
		case "fmt.Fprintf":
			r := a.resolve(e.Args[0])
			if len(r) != 1 || r[0] != obj {
				continue
			}
			ps = c.sprintf(e.Args[1], e.Args[2])
		default:
			continue
		}
		ch := a.execChain(e.In, e.Fr, obj.Fr, home)
		if len(ps) == 0 || len(ps) != 1 && len(ch.Loops) > 0 {
			return nil
		}
		switch len(ch.Loops) {
		case 0:
			flush()
			if len(ch.Conds) > 0 {
				if len(ps) != 1 {
					return nil
				}
				ps = []Tmpl{{{Rep: &TRep{Body: ps[0], Conds: ch.Conds}}}}
			}
			res = cross(res, ps)
		case 1:
			if loop != nil && loop != ch.Loops[0] {
				flush()
			}
			loop = ch.Loops[0]
			if len(ch.Conds) > 0 {
				s, ok := ps[0].isConst()
				if !ok || len(body) > 0 || len(ch.Conds) != 1 || !isNotFirst(ch.Conds[0]) {
					return nil
				}
				sep += s
				continue
			}
			body = body.add(ps[0])
		default:
			return nil
		}
	}
	flush()
	return res
}

// isNotFirst: the condition holds on every turn but the first.
func isNotFirst(c Cond) bool {
	if c.T == nil || c.T.Op != "binop" {
		return false
	}
	x, y := c.T.Args[0], c.T.Args[1]
	op := c.T.S
	if y.Op == "rangeidx" {
		x, y = y, x
		switch op {
		case "<":
			op = ">"
		case ">":
			op = "<"
		}
	}
	n, ok := y.isConstInt()
	if x.Op != "rangeidx" || !ok {
		return false
	}
	switch {
	case n == 0 && (op == ">" || op == "!="):
		return c.True
	case n == 0 && op == "==":
		return !c.True
	case n == 1 && op == ">=":
		return c.True
	}
	return false
}

var _ = token.ADD
