package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func init() {
	register("P12", "The interfaces of client/src/types/gr_param.d.ts are parsed and compared, from IGrParam down, with the Go types encoded into window.grParam: every member the client reads must be encoded under exactly that name, once, with a matching kind (string, number, boolean, list, record, object), and members the client requires must not be omitted when empty.", checkP12)
}

type tsMember struct {
	Name     string
	Type     string
	Optional bool
}

type tsInterface struct {
	Extends []string
	Members []tsMember
}

var tsHead = regexp.MustCompile(`^(?:export\s+)?(?:declare\s+)?(?:abstract\s+)?interface\s+(\w+)(?:\s+extends\s+([\w\s,]+?))?\s*\{`)
var tsAlias = regexp.MustCompile(`^(?:export\s+)?type\s+(\w+)\s*=\s*`)
var tsComment = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*`)

// parseTS reads the interfaces of a declaration file.
func parseTS(src string) (map[string]*tsInterface, error) {
	src = tsComment.ReplaceAllString(src, "")
	res := map[string]*tsInterface{}
	for {
		src = strings.TrimSpace(src)
		if src == "" {
			return res, nil
		}
		if strings.HasPrefix(src, "import") || strings.HasPrefix(src, "export {") {
			i := strings.Index(src, ";")
			if i < 0 {
				return nil, fmt.Errorf("import without end")
			}
			src = src[i+1:]
			continue
		}
		m := tsHead.FindStringSubmatch(src)
		if m == nil {
			if a := tsAlias.FindStringSubmatch(src); a != nil {
				rest := src[len(a[0]):]
				if strings.HasPrefix(rest, "{") {
					src = "interface " + a[1] + " " + rest
					continue
				}
				i := strings.Index(rest, ";")
				if i < 0 {
					return nil, fmt.Errorf("alias without end")
				}
				t := strings.TrimSpace(rest[:i])
				res[a[1]] = &tsInterface{Extends: []string{t}}
				src = rest[i+1:]
				continue
			}
			return nil, fmt.Errorf("cannot read %q", strings.SplitN(src, "\n", 2)[0])
		}
		it := &tsInterface{}
		for _, e := range strings.Split(m[2], ",") {
			if e = strings.TrimSpace(e); e != "" {
				it.Extends = append(it.Extends, e)
			}
		}
		rest := src[len(m[0]):]
		depth, end := 1, -1
		for i, ch := range rest {
			switch ch {
			case '{':
				depth++
			case '}':
				depth--
			}
			if depth == 0 {
				end = i
				break
			}
		}
		if end < 0 {
			return nil, fmt.Errorf("interface %s without end", m[1])
		}
		for _, l := range regexp.MustCompile(`[;\n]`).Split(rest[:end], -1) {
			l = strings.TrimSuffix(strings.TrimSpace(l), ",")
			if l == "" {
				continue
			}
			i := strings.Index(l, ":")
			if i < 0 {
				return nil, fmt.Errorf("interface %s: cannot read %q", m[1], l)
			}
			n := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l[:i]), "readonly "))
			mb := tsMember{Name: strings.TrimSuffix(n, "?"), Optional: strings.HasSuffix(n, "?"), Type: strings.TrimSpace(l[i+1:])}
			it.Members = append(it.Members, mb)
		}
		if old := res[m[1]]; old != nil { // declarations are merged
			old.Members = append(old.Members, it.Members...)
			old.Extends = append(old.Extends, it.Extends...)
		} else {
			res[m[1]] = it
		}
		src = strings.TrimPrefix(strings.TrimSpace(rest[end+1:]), ";")
	}
}

// members of an interface, inherited ones overridden.
func tsMembers(all map[string]*tsInterface, name string, depth int) ([]tsMember, bool) {
	it := all[name]
	if it == nil || depth > 8 {
		return nil, false
	}
	var res []tsMember
	pos := map[string]int{}
	add := func(m tsMember) {
		if i, ok := pos[m.Name]; ok {
			res[i] = m
			return
		}
		pos[m.Name] = len(res)
		res = append(res, m)
	}
	for _, e := range it.Extends {
		ms, ok := tsMembers(all, e, depth+1)
		if !ok {
			return nil, false
		}
		for _, m := range ms {
			add(m)
		}
	}
	for _, m := range it.Members {
		add(m)
	}
	return res, true
}

type goMember struct {
	Name string
	T    types.Type
	Opts []string
	Pos  token.Pos
	N    int
	Lvl  int
}

// goMembers: what encoding/json writes for a struct.
func goMembers(st *types.Struct, lvl int, res map[string]*goMember) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflectTag(st.Tag(i), "json")
		if f.Anonymous() && strings.Split(tag, ",")[0] == "" {
			if es := structOf(f.Type()); es != nil {
				goMembers(es, lvl+1, res)
				continue
			}
		}
		n, opts := jsonName(st, i)
		if n == "" {
			continue
		}
		if old := res[n]; old != nil {
			if old.Lvl < lvl {
				continue
			}
			if old.Lvl == lvl {
				old.N++
				continue
			}
		}
		res[n] = &goMember{Name: f.Name(), T: f.Type(), Opts: opts, Pos: f.Pos(), N: 1, Lvl: lvl}
	}
}

func hasMarshal(t types.Type) bool {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		if s := ms.Lookup(nil, "MarshalJSON"); s != nil {
			return true
		}
	}
	return false
}

type tsCheck struct {
	w    *World
	r    *Report
	all  map[string]*tsInterface
	seen map[string]bool
	need []reqList
}

func (k *tsCheck) iface(name string, t types.Type, path string) {
	st := structOf(t)
	if st == nil {
		k.r.failAt("client/src/types/gr_param.d.ts", path, "the client expects an object (%s) where %s is encoded", name, t)
		return
	}
	key := name + "|" + t.String()
	if k.seen[key] {
		return
	}
	k.seen[key] = true
	k.r.count("types compared", 1)
	ms, ok := tsMembers(k.all, name, 0)
	if !ok {
		k.r.failAt("client/src/types/gr_param.d.ts", path, "unknown interface %s", name)
		return
	}
	gm := map[string]*goMember{}
	goMembers(st, 0, gm)
	for _, m := range ms {
		p := path + "." + m.Name
		k.r.count("members compared", 1)
		g := gm[m.Name]
		if g == nil {
			k.r.fail(namedPos(t), "the client reads %s, which is not part of the report (type %s)", p, shortType(t))
			continue
		}
		if g.N > 1 {
			k.r.fail(g.Pos, "%s is left out of the report: two members have the same name", p)
			continue
		}
		for _, o := range g.Opts {
			if o == "omitempty" && !m.Optional {
				k.r.fail(g.Pos, "the client needs %s, which is left out when empty", p)
			}
			if o == "string" && strings.TrimSpace(m.Type) != "string" {
				k.r.fail(g.Pos, "%s is encoded as text", p)
			}
		}
		if _, isList := listOf(strings.TrimSpace(m.Type)); isList && !m.Optional {
			k.need = append(k.need, reqList{typ: namedOf(t), field: g.Name, path: p, name: m.Name})
		}
		k.kind(strings.TrimSpace(m.Type), g.T, p, g.Pos)
	}
}

func namedPos(t types.Type) token.Pos {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pos()
	}
	return 0
}

func (k *tsCheck) kind(ts string, t types.Type, path string, pos token.Pos) {
	bad := func() {
		k.r.fail(pos, "the client expects %s as %s, encoded is %s", path, ts, shortType(t))
	}
	ts = strings.TrimSpace(strings.TrimSuffix(strings.TrimSuffix(ts, "| null"), "| undefined"))
	if ts == "any" || ts == "unknown" {
		return
	}
	if ts == "" {
		bad()
		return
	}
	base := t
	if p, ok := base.Underlying().(*types.Pointer); ok {
		base = p.Elem()
	}
	switch ts {
	case "string", "number", "boolean":
		if n, ok := base.(*types.Named); ok {
			switch n.Obj().Name() {
			case "Float", "Int":
				if strings.Contains(n.Obj().Pkg().Path(), "null") {
					if ts != "number" {
						bad()
					}
					return
				}
			case "String", "Bool":
				if strings.Contains(n.Obj().Pkg().Path(), "null") {
					if ts != map[string]string{"String": "string", "Bool": "boolean"}[n.Obj().Name()] {
						bad()
					}
					return
				}
			}
			if hasMarshal(base) {
				k.marshal(n, ts, path)
				return
			}
		}
		b, ok := base.Underlying().(*types.Basic)
		if !ok {
			bad()
			return
		}
		in := b.Info()
		if ts == "string" && in&types.IsString == 0 || ts == "number" && in&types.IsNumeric == 0 || ts == "boolean" && in&types.IsBoolean == 0 {
			bad()
		}
		return
	}
	if el, ok := listOf(ts); ok {
		switch s := base.Underlying().(type) {
		case *types.Slice:
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				bad()
				return
			}
			k.kind(el, s.Elem(), path+"[]", pos)
		case *types.Array:
			k.kind(el, s.Elem(), path+"[]", pos)
		default:
			bad()
		}
		return
	}
	if strings.HasPrefix(ts, "Record<") {
		if _, ok := base.Underlying().(*types.Map); !ok {
			bad()
		}
		return
	}
	if k.all[ts] == nil {
		bad()
		return
	}
	k.iface(ts, t, path)
}

func listOf(ts string) (string, bool) {
	if strings.HasSuffix(ts, "[]") {
		return strings.Trim(strings.TrimSuffix(ts, "[]"), "()"), true
	}
	if strings.HasPrefix(ts, "Array<") && strings.HasSuffix(ts, ">") {
		return ts[6 : len(ts)-1], true
	}
	return "", false
}

// marshal: the type's own encoding writes a value of that kind.
func (k *tsCheck) marshal(n *types.Named, ts, path string) {
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
		if ts != "string" {
			k.r.fail(n.Obj().Pos(), "the client expects %s as %s, a time is encoded as text", path, ts)
		}
		return
	}
	for _, fn := range k.w.P.Funcs {
		if fn.Name() != "MarshalJSON" || fn.Signature.Recv() == nil || namedOf(fn.Signature.Recv().Type()) != namedOf(n) {
			continue
		}
		fr := k.w.A.ByFn[fn]
		if len(fr) == 0 {
			fr = []*Frame{k.w.A.root(fn)}
		}
		k.r.count("own encodings", 1)
		for _, v := range fr[0].results(0) {
			for _, x := range k.w.A.resolve(v) {
				for x.Op == "conv" {
					x = k.w.A.one(x.Args[0])
					if x == nil {
						break
					}
				}
				if x == nil || x.Op == "nil" || x.Op == "zero" {
					continue
				}
				got := encodedKind(x)
				if got != ts {
					k.r.fail(fn.Pos(), "the client expects %s as %s, its own encoding writes %s", path, ts, got)
				}
				if ts == "number" && strings.HasSuffix(namedOf(n), "VmTimestamp") && !k.w.A.isUnixMilli(x) {
					k.r.fail(fn.Pos(), "the client expects %s as milliseconds since 1970", path)
				}
			}
		}
		return
	}
}

func encodedKind(x *Term) string {
	if x.Op == "res" {
		x = x.Args[0]
	}
	if x.Op != "call" {
		return "something unknown"
	}
	switch x.Callee {
	case "strconv.FormatInt", "strconv.FormatUint", "strconv.Itoa", "strconv.AppendInt", "strconv.AppendUint":
		if len(x.Args) > 1 {
			if n, ok := x.Args[len(x.Args)-1].isConstInt(); !ok || n != 10 {
				return "a number of another base"
			}
		}
		return "number"
	case "encoding/json.Marshal":
		if b, ok := x.Args[0].T.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsNumeric != 0:
				return "number"
			case b.Info()&types.IsString != 0:
				return "string"
			}
		}
	case "fmt.Sprintf", "fmt.Sprint":
		if len(x.Args) > 0 {
			if s, ok := x.Args[0].isConstString(); ok && s == "%d" {
				return "number"
			}
		}
	case "strconv.Quote":
		return "string"
	}
	return "something unknown"
}

func (a *Analysis) isUnixMilli(x *Term) bool {
	hit := false
	a.reach(x, func(t *Term) bool {
		switch {
		case t.Op == "call" && t.Callee == "(time.Time).UnixMilli":
			hit = true
			return false
		case t.Op == "binop" && t.S == "/":
			if n, ok := t.Args[1].isConstInt(); ok && n == 1000000 {
				if y := a.one(t.Args[0]); y != nil && y.Op == "call" && y.Callee == "(time.Time).UnixNano" {
					hit = true
				}
			}
			return false
		case t.Op == "binop":
			return false
		}
		return !hit
	})
	return hit
}

func checkP12(w *World, r *Report) {
	a := w.A
	file := filepath.Join(w.P.Dir, "client/src/types/gr_param.d.ts")
	b, err := os.ReadFile(file)
	if err != nil {
		r.missing("client/src/types/gr_param.d.ts")
		return
	}
	all, err := parseTS(string(b))
	if err != nil {
		r.failAt("client/src/types/gr_param.d.ts", "", "cannot read the client's types: %v", err)
		return
	}
	ms, ok := tsMembers(all, "IGrParam", 0)
	if !ok {
		r.missing("interface IGrParam")
		return
	}
	k := &tsCheck{w: w, r: r, all: all, seen: map[string]bool{}}
	for _, c := range w.reportCmds() {
		roots := w.reportRoots(c)
		if len(roots) == 0 {
			r.missing("the data of the report of %q", c.Path)
		}
		for _, root := range roots {
			fs := a.jsonFields(root)
			for _, m := range ms {
				if m.Name == "dev" {
					continue
				}
				v := fs[m.Name]
				if v == nil {
					r.failAt("html", c.Path, "the client reads %s, which is not part of the report", m.Name)
					continue
				}
				var ts []types.Type
				if v.T != nil {
					ts = append(ts, v.T)
				} else {
					for _, x := range a.resolve(v) {
						if x.T != nil {
							ts = append(ts, x.T)
						}
					}
				}
				if len(ts) == 0 {
					r.failAt("html", c.Path, "the type of %s is unknown", m.Name)
				}
				for _, t := range ts {
					k.kind(strings.TrimSpace(m.Type), t, m.Name, 0)
				}
			}
		}
	}
	w.checkNulls(r, k.need)
}
