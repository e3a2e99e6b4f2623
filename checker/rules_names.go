package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// documented action names and the constants they stand for
var actionNames = map[string]map[string]string{
	"actions.Action":          {"merge": "Merge", "replace": "Replace", "delete": "Delete", "combine": "Combine"},
	"actions.OnMissingAction": {"": "Default", "default": "Default", "ignore": "Ignore", "inject": "Inject"},
}

// how the constants are written
var actionStrings = map[string]map[string]string{
	"actions.Action":          {"Invalid": "", "Merge": "merge", "Replace": "replace", "Delete": "delete", "Combine": "combine"},
	"actions.OnMissingAction": {"Default": "default", "Ignore": "ignore", "Inject": "inject"},
}

// foldedName tells what the facts say about whether the text x, in lower case, is the name.
func foldedName(st *State, x *Term, name string) tri {
	res := U
	for t, v := range st.facts.b {
		var y *Term
		fold := false
		s := ""
		switch {
		case t.op == OCall && t.s == "strings.EqualFold":
			fold = true
			fallthrough
		case t.op == OEq:
			for i := 0; i < 2; i++ {
				if l, ok := t.args[i].isStr(); ok {
					s, y = l, t.args[1-i]
				}
			}
		}
		if y == nil {
			continue
		}
		if fold {
			s = strings.ToLower(s)
		}
		for y.op == OCall && y.s == "strings.ToLower" {
			y, fold = y.args[0], true
		}
		switch {
		case y != x:
		case v && fold && s == name:
			return Y
		case v && !fold && strings.ToLower(s) == name:
			// equal as written
			return Y
		case v:
			res = N
		case fold && s == name:
			res = N
		}
	}
	return res
}

func (P *Program) constOf(pkg, name string) (int64, bool) {
	p := P.tpkg(pkg)
	if p == nil {
		return 0, false
	}
	o, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(o.Val()))
}

// ruleActionNames: action names (C23).
func ruleActionNames(c *Check) {
	P := c.P
	c.rule("Every path of the methods that read an action is followed. A path that succeeds must know that the text, in lower case, is one of the documented names, and have stored exactly its constant; a path that fails must know that the text is none of them (or that it was no text).")
	c.rule("For each constant, the methods that write an action are evaluated and must give the documented name; the constants are distinct; the keys of the instructions file under which actions are read are the documented ones.")
	n := map[string]int{}
	for typ, names := range actionNames {
		short := strings.TrimPrefix(typ, "actions.")
		val := map[string]int64{}
		vals := map[int64]string{}
		for _, k := range actionStringsKeys(typ) {
			v, ok := P.constOf("actions", k)
			if !c.Must(ok, "const|"+k, "-", "the constant actions.%s was not found", k) {
				continue
			}
			c.Must(vals[v] == "", "distinct|"+k, "-", "actions.%s and actions.%s are the same", k, vals[v])
			val[k], vals[v] = v, k
		}
		read := map[string]bool{}
		for _, f := range P.PkgFuncs("actions") {
			if f.Signature.Recv() == nil || typeName(deref(f.Signature.Recv().Type())) != typ || f.Synthetic != "" {
				continue
			}
			recv := f.Params[0]
			switch {
			case len(f.Params) == 2 && typeName(deref(f.Params[1].Type())) == "yaml.Node" && f.Name() == "UnmarshalYAML",
				len(f.Params) == 2 && isString(f.Params[1].Type()) && f.Name() == "Set",
				len(f.Params) == 2 && f.Name() == "UnmarshalText":
				read[f.Name()] = true
				n["readers"]++
				self := Param(recv.Name(), recv.Type())
				src := Param(f.Params[1].Name(), f.Params[1].Type())
				r := &Rule{Name: "names"}
				r.OnCall = func(e *Engine, st *State, ev *CallEv) {
					switch ev.name {
					case "(*yaml.Node).Decode", "yaml.Unmarshal":
						to := unwrap(ev.args[1])
						from := ev.args[0]
						ev.handled = true
						ev.results = e.freshResults(st, ev.instr, ev.name, 1)
						st.Set("decode:"+ref(ev.results[0]), ref(ev.results[0]))
						if to == self {
							// read by the other method
							st.Set("delegated", ref(ev.results[0]))
							from = stripConv(from)
							c.must(e, st, ev.instr, from == src, "delegates", "%v is read instead of the text given", from)
							return
						}
						x := Call("decoded", stripConv(from))
						if from != src {
							x = Call("wrong")
						}
						e.Store(st, to, x, ev.instr)
					}
				}
				x := Call("decoded", src)
				if isString(f.Params[1].Type()) {
					x = src
				}
				r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
					err := res[len(res)-1]
					n["returns"]++
					failed, delegated := false, st.Get("delegated") != ""
					for _, d := range st.listed("decode:") {
						if st.Is(Not(Eq(d, Nil()))) {
							failed = true
						}
					}
					switch st.Truth(Eq(err, Nil())) {
					case N:
						if failed {
							return
						}
						for name := range names {
							c.must(e, st, in, foldedName(st, x, name) == N, "rejects", "the %s %q may be rejected", short, name)
						}
					case Y:
						if !c.must(e, st, in, !failed, "ignored", "a name that could not be read is accepted") {
							return
						}
						if delegated {
							return
						}
						got := e.Load(st, self, nil)
						ok := false
						for name, k := range names {
							if foldedName(st, x, name) == Y {
								v, is := stripConv(got).isInt()
								ok = true
								c.must(e, st, in, is && v == val[k], "meaning|"+name, "the %s %q is not read as %s", short, name, k)
							}
						}
						c.must(e, st, in, ok, "accepts", "names that are no documented %s are accepted", short)
					default:
						c.must(e, st, in, delegated && err == unref(st.Get("delegated")), "unknown", "it is not known when %s fails", fnLabel(f))
					}
				}
				c.explore(f, r, nil, nil)
			case len(f.Params) == 1 && f.Signature.Results().Len() > 0 && (f.Name() == "String" || f.Name() == "MarshalYAML" || f.Name() == "MarshalText"):
				for k, s := range actionStrings[typ] {
					if k == "Invalid" {
						continue
					}
					k, s := k, s
					n["writers"]++
					r := &Rule{Name: "writes"}
					r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
						got, ok := unwrap(res[0]).isStr()
						c.must(e, st, in, ok && got == s, "written|"+k, "the %s %s is written as %v", short, k, res[0])
						if len(res) > 1 {
							c.must(e, st, in, st.Is(Eq(res[1], Nil())), "written-err|"+k, "writing the %s %s may fail", short, k)
						}
					}
					arg := Int(val[k])
					var init func(st *State)
					if isPtr(recv.Type()) {
						arg = Param(recv.Name(), recv.Type())
						init = func(st *State) { st.mem[arg] = Int(val[k]) }
					}
					c.explore(f, r, []*Term{arg}, init)
				}
			}
		}
		c.Must(read["UnmarshalYAML"] || read["UnmarshalText"], "reader|"+short, "-", "no method reads the %s from YAML", short)
	}
	c.least("methods that read actions", n["readers"], 2)
	c.least("outcomes of reading", n["returns"], 4)
	c.least("constants written", n["writers"], 7)
	c.yamlKeys("overlays.Overlay", map[string]string{"action": "actions.Action", "onMissing": ""})
	c.yamlKeys("overlays.OnMissing", map[string]string{"action": "actions.OnMissingAction"})
}

func actionStringsKeys(typ string) []string {
	return sortedKeys(actionStrings[typ])
}

// yamlKeys: the struct has a field for each key (of the type, if given), and no two fields have one key.
func (c *Check) yamlKeys(typ string, keys map[string]string) {
	i := strings.Index(typ, ".")
	p := c.P.tpkg(typ[:i])
	if !c.Must(p != nil, "keys|"+typ, "-", "package %s was not found", typ[:i]) {
		return
	}
	o, ok := p.Scope().Lookup(typ[i+1:]).(*types.TypeName)
	if !c.Must(ok, "keys|"+typ, "-", "the type %s was not found", typ) {
		return
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !c.Must(ok, "keys|"+typ, c.P.pos(o.Pos()), "%s is no struct", typ) {
		return
	}
	has := map[string]*types.Var{}
	structKeys(s, has)
	for _, k := range sortedKeys(keys) {
		f := has[k]
		if c.Must(f != nil, "key|"+typ+"|"+k, c.P.pos(o.Pos()), "%s has no field for the key %s", typ, k) && keys[k] != "" {
			c.Must(typeName(f.Type()) == keys[k] || types.TypeString(f.Type(), func(p *types.Package) string { return p.Name() }) == keys[k], "key-type|"+typ+"|"+k, c.P.pos(f.Pos()), "the key %s of %s is read into %s", k, typ, f.Name())
		}
	}
}

// structKeys: the keys yaml.v3 uses for the fields of a struct.
func structKeys(s *types.Struct, has map[string]*types.Var) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("yaml")
		name, opts, _ := strings.Cut(tag, ",")
		if strings.Contains(","+opts+",", ",inline,") {
			if in, ok := deref(f.Type()).Underlying().(*types.Struct); ok {
				structKeys(in, has)
			}
			continue
		}
		switch name {
		case "-":
			continue
		case "":
			name = strings.ToLower(f.Name())
		}
		has[name] = f
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
