package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// a setting as documented (docs/sections/configFile.md, envVars.md, commandUsage.md)
type setting struct {
	key, flag, short, env string
	kind                  string // string, bool, int, strings, value
	def                   string // documented default of the flag ("" is not looked at)
	get                   []string
}

var settingTable = []setting{
	{"configFile", "config", "", "YOT_CONFIG_FILE", "string", "", nil},
	{"logLevel", "log-level", "v", "YOT_LOG_LEVEL", "value", "", []string{"GetString"}},
	{"outputDirectory", "output-directory", "o", "YOT_OUTPUT_DIRECTORY", "string", `"./output"`, []string{"GetString"}},
	{"stdout", "stdout", "s", "YOT_STDOUT", "bool", "false", []string{"GetBool"}},
	{"indentLevel", "indent-level", "I", "YOT_INDENT_LEVEL", "int", "2", []string{"GetInt"}},
	{"outputStyle", "output-style", "S", "YOT_OUTPUT_STYLE", "value", "", []string{"GetStringSlice"}},
	{"removeComments", "remove-comments", "", "YOT_REMOVE_COMMENTS", "bool", "false", []string{"GetBool"}},
	{"defaultOnMissingAction", "default-on-missing-action", "", "YOT_DEFAULT_ON_MISSING_ACTION", "value", "", []string{"GetString"}},
}

// flags that are read from the field they are bound to
var fieldFlags = []struct{ flag, short, kind, field string }{
	{"config", "", "string", ""},
	{"instructions", "i", "string", "InstructionsFile"},
	{"values-file", "f", "stringarray", "ValueFiles"},
	{"query", "q", "value", "Overlay.Query"},
	{"action", "a", "value", "Overlay.Action"},
	{"value", "x", "string", "Value"},
	{"path", "p", "string", "Path"},
}

func settingOf(key string) *setting {
	for i := range settingTable {
		if strings.EqualFold(settingTable[i].key, key) {
			return &settingTable[i]
		}
	}
	return nil
}

// viperCall: the operation on the settings a call is, on the package or on an object.
func viperCall(name string) string {
	switch {
	case strings.HasPrefix(name, "viper."):
		return name[len("viper."):]
	case strings.HasPrefix(name, "(*viper.Viper)."):
		return name[len("(*viper.Viper)."):]
	}
	return ""
}

// ruleSettings: flags, environment variables and the config file reach their setting (C22).
func ruleSettings(c *Check) {
	c.rule("On every path of commands.New: every documented flag is defined once with its name, shorthand, kind and default, bound to a variable of its own; flags with a setting are bound to that setting's key with BindPFlag; the function that reads the configuration is registered.")
	c.rule("On every path of the function registered with cobra.OnInitialize: every documented environment variable is bound to its key, the format is YAML and, before the file is read, either the file named by flag or variable is set (when there is one) or the documented name and locations, in order of precedence.")
	c.rule("Every setting that has an environment variable is read with the getter of its kind and nowhere from the variable of the flag; its key is never overridden by Set, an alias or a different default; nothing changes how environment variables are looked up.")
	c.rule("The log level given by its setting is the level of the backend that is used, the indent level given by its setting that of every encoder; the root command runs Execute with the configuration the flags write to and sets up logging before.")
	s := &settings{c: c, P: c.P, vars: map[string]*Term{}, n: map[string]int{}, dirs: map[string]bool{}}
	s.flags()
	s.readers()
	s.uses()
	s.sinks()
}

type settings struct {
	c      *Check
	P      *Program
	vars   map[string]*Term // flag -> variable
	fields map[string]string
	base   *Term
	n      map[string]int
	dirs   map[string]bool
	config string // field of Root that holds the configuration
	file   string // field that holds the name of the config file
}

// pairsOf: what two arguments of a call can be together: constants, or key and value of a constant table.
func (s *settings) pairs(a, b *Term) (out [][2]string, next ssa.Instruction, ok bool) {
	if x, ok := a.isStr(); ok {
		if y, ok := b.isStr(); ok {
			return [][2]string{{x, y}}, nil, true
		}
		return nil, nil, false
	}
	if a.op != OSite || b.op != OSite || a.site != b.site {
		return nil, nil, false
	}
	nx, isN := a.site.(*ssa.Next)
	if !isN {
		return nil, nil, false
	}
	rg, isR := nx.Iter.(*ssa.Range)
	if !isR {
		return nil, nil, false
	}
	tab, okT := s.P.mapTable(rg.X, 0)
	if !okT {
		return nil, nil, false
	}
	for k, v := range tab {
		if k.Kind() != constant.String || len(v) != 1 {
			return nil, nil, false
		}
		ks := constant.StringVal(k)
		switch {
		case a.s == "key" && b.s == "val":
			out = append(out, [2]string{ks, v[0]})
		case a.s == "val" && b.s == "key":
			out = append(out, [2]string{v[0], ks})
		default:
			return nil, nil, false
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out, a.site.(ssa.Instruction), true
}

// tableLoop keeps track of loops over constant tables whose body does something for every entry.
func (s *settings) tableLoop(e *Engine, st *State, ev LoopEv) {
	for _, in := range ev.l.header.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		k := "keep:tab:" + s.P.ipos(nx.Iter.(ssa.Instruction)) + fnLabel(nx.Parent())
		switch ev.kind {
		case "enter":
			st.Set(k, "")
			st.Set(k+":now", "")
		case "back":
			now := st.Get(k + ":now")
			if old := st.Get(k); old == "" {
				st.Set(k, now+";")
			} else if old != now+";" {
				st.Set(k, "no;")
			}
			st.Set(k+":now", "")
		case "exit":
			if st.Truth(e.site(st, nx, "next", 0)) != N {
				continue // not every entry
			}
			if st.Get(k) == "" {
				if tab, ok := s.P.mapTable(nx.Iter.(*ssa.Range).X, 0); ok && len(tab) > 0 {
					st.dead = true // tables have entries
					return
				}
			}
			for _, p := range strings.Split(strings.TrimSuffix(st.Get(k), ";"), "|") {
				if p != "" && p != "no" {
					st.Set("keep:"+p, "1")
				}
			}
		}
	}
}

func (s *settings) mark(st *State, next ssa.Instruction, what string) {
	if next == nil {
		st.Set("keep:"+what, "1")
		return
	}
	k := "keep:tab:" + s.P.ipos(next.(*ssa.Next).Iter.(ssa.Instruction)) + fnLabel(next.Parent()) + ":now"
	st.Set(k, st.Get(k)+what+"|")
}

// flags: what New defines.
func (s *settings) flags() {
	c := s.c
	root := c.fn("commands", "New")
	if root == nil {
		return
	}
	r := &Rule{Name: "flags", KeepAll: true}
	bindings := map[string]bool{}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) { s.tableLoop(e, st, ev) }
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		name := ev.name
		switch {
		case name == "os.Getenv" || name == "os.LookupEnv":
			ev.handled = true
			ev.results = []*Term{Call("getenv", ev.args[0]), Call("hasenv", ev.args[0])}[:ev.common.Signature().Results().Len()]
		case strings.HasSuffix(name, ").Flags") || strings.HasSuffix(name, ").PersistentFlags"):
			ev.handled = true
			ev.results = []*Term{Call("flags", ev.args[0])}
		case name == "(*pflag.FlagSet).Lookup":
			ev.handled = true
			ev.results = []*Term{Call("flag", ev.args[1])}
		case name == "(*cobra.Command).Flag":
			ev.handled = true
			ev.results = []*Term{Call("flag", ev.args[1])}
		case strings.HasPrefix(name, "(*pflag.FlagSet)."):
			s.defined(e, st, ev, strings.TrimPrefix(name, "(*pflag.FlagSet)."))
		case name == "cobra.OnInitialize":
			st.Set("keep:init", "1")
		case name == "enumflag.New" || name == "enumflag.NewSlice":
			s.n["enums"]++
			ev.handled = true
			ev.results = []*Term{Call("enum", ev.args[0], unwrap(ev.args[2]), unwrap(ev.args[3]))}
			ci := unwrap(ev.args[3])
			c.must(e, st, ev.instr, ci.op == OConst && ci.cv != nil && ci.cv.Kind() == constant.Bool && !constant.BoolVal(ci.cv), "case", "the names a flag accepts depend on their letter case")
			if call, okc := ev.instr.(*ssa.Call); okc {
				s.enum(call)
			}
		case strings.HasSuffix(name, ".MarkFlagRequired") || strings.HasSuffix(name, ".MarkPersistentFlagRequired") || strings.HasSuffix(name, ".MarkFlagsMutuallyExclusive") || strings.HasSuffix(name, ".MarkFlagsRequiredTogether"):
			c.must(e, st, ev.instr, false, "required", "a flag is required or excluded")
		case viperCall(name) == "BindPFlag":
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, name, 1)
			fl := unwrap(ev.args[len(ev.args)-1])
			if !c.must(e, st, ev.instr, fl.op == OCall && fl.s == "flag", "bound", "the flag bound to a setting could not be determined (%v)", fl) {
				return
			}
			ps, nx, ok := s.pairs(unwrap(ev.args[len(ev.args)-2]), unwrap(fl.args[0]))
			if !c.must(e, st, ev.instr, ok, "bound", "the setting a flag is bound to could not be determined") {
				return
			}
			for _, p := range ps {
				x := settingOf(p[0])
				if c.must(e, st, ev.instr, x != nil && x.flag == p[1], "bound|"+p[1], "the flag --%s is bound to the setting %s", p[1], p[0]) {
					bindings[p[0]] = true
					// the flag has to exist by now
					c.must(e, st, ev.instr, nx != nil || st.Get("keep:def:"+p[1]) != "", "exists|"+p[1], "the flag --%s is not known to be defined when it is bound to its setting", p[1])
					s.mark(st, nx, "bind:"+x.key)
				}
			}
		case strings.HasPrefix(viperCall(name), "Get"):
			c.must(e, st, ev.instr, false, "early", "a setting is read before the command line and the config file are")
		case viperCall(name) == "BindPFlags":
			c.must(e, st, ev.instr, false, "bound", "flags are bound to settings of their own name")
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, v *Term, in ssa.Instruction) {
		if addr.op == OFA && addr.s == "NoOptDefVal" && addr.args[0].op == OCall && addr.args[0].s == "flag" {
			f, _ := addr.args[0].args[0].isStr()
			val, ok := unwrap(v).isStr()
			c.must(e, st, in, f == "log-level" && ok && val == "debug", "optional", "the flag --%s without a value stands for %v", f, v)
			if f == "log-level" && ok && val == "debug" {
				st.Set("keep:nooptdef", "1")
			}
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		s.n["constructed"]++
		c.must(e, st, in, st.Get("keep:init") != "", "init", "reading the configuration is not known to be registered when the command is constructed")
		c.must(e, st, in, st.Get("keep:nooptdef") != "", "nooptdef", "the log level flag without a value is not known to stand for debug")
		for i := range settingTable {
			x := &settingTable[i]
			c.must(e, st, in, st.Get("keep:def:"+x.flag) != "", "defined|"+x.flag, "the flag --%s is not known to be defined when the command is constructed", x.flag)
			c.must(e, st, in, st.Get("keep:bind:"+x.key) != "", "unbound|"+x.flag, "the flag --%s is not known to be bound to its setting %s when the command is constructed", x.flag, x.key)
		}
		for _, f := range fieldFlags {
			c.must(e, st, in, st.Get("keep:def:"+f.flag) != "", "defined|"+f.flag, "the flag --%s is not known to be defined when the command is constructed", f.flag)
		}
		// the configuration the flags write to is that of the result
		if len(res) > 0 && s.base != nil {
			ok := false
			for a, v := range st.mem {
				if a.op == OFA && a.args[0] == res[0] && v == s.base {
					ok = true
					s.config = a.s
				}
			}
			c.must(e, st, in, ok, "config", "the configuration the flags write to is not that of the command")
			if v := s.vars["config"]; v != nil && v.op == OFA && v.args[0] == res[0] {
				s.file = v.s
			}
			// what comes from the environment
			if f := s.file; f != "" {
				v := e.Load(st, FA(res[0], f), nil)
				c.must(e, st, in, v == Call("getenv", Str("YOT_CONFIG_FILE")), "file-env", "without a flag the config file is %v instead of the one named by YOT_CONFIG_FILE", v)
			}
		}
	}
	e := c.explore(root, r, nil, nil)
	_ = e
	c.least("commands constructed", s.n["constructed"], 1)
	c.least("flags defined", s.n["defined"], len(settingTable)+len(fieldFlags)-1)
	c.least("flags bound to settings", len(bindings), len(settingTable))
	c.least("flags with enumerated values", s.n["enums"], 2)
	seen := map[*Term]string{}
	var fl []string
	for f := range s.vars {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, f := range fl {
		v := s.vars[f]
		c.Must(seen[v] == "", "variable|"+f, "-", "the flags --%s and --%s write to the same variable", f, seen[v])
		seen[v] = f
	}
}

// defined: a call that defines a flag.
func (s *settings) defined(e *Engine, st *State, ev *CallEv, m string) {
	c := s.c
	short := strings.HasSuffix(m, "P") && m != "VarP" || m == "VarP"
	kind, i, valued := "", 1, true
	switch strings.TrimSuffix(m, "P") {
	case "StringVar":
		kind = "string"
	case "BoolVar":
		kind = "bool"
	case "IntVar":
		kind = "int"
	case "StringArrayVar":
		kind = "stringarray"
	case "StringSliceVar":
		kind = "stringslice"
	case "Var":
		kind, valued = "value", false
	default:
		if strings.HasPrefix(m, "Get") || strings.HasPrefix(m, "Set") || strings.HasPrefix(m, "Mark") || strings.HasPrefix(m, "Visit") || m == "Changed" {
			return
		}
		c.must(e, st, ev.instr, false, "defined", "a flag is defined by %s, which is not known", m)
		return
	}
	ev.handled = true
	ev.results = e.freshResults(st, ev.instr, ev.name, ev.common.Signature().Results().Len())
	vr := unwrap(ev.args[i])
	name, ok := unwrap(ev.args[i+1]).isStr()
	if !c.must(e, st, ev.instr, ok, "defined", "the name of a flag is not constant") {
		return
	}
	sh, def := "", (*Term)(nil)
	j := i + 2
	if short {
		sh, _ = unwrap(ev.args[j]).isStr()
		j++
	}
	if valued {
		def = unwrap(ev.args[j])
	}
	wantShort, wantKind, wantField, wantDef := "?", "", "", ""
	for k := range settingTable {
		if x := &settingTable[k]; x.flag == name {
			wantShort, wantKind, wantDef = x.short, x.kind, x.def
		}
	}
	for _, f := range fieldFlags {
		if f.flag == name {
			wantShort, wantKind, wantField = f.short, f.kind, f.field
		}
	}
	if wantShort == "?" {
		return // not documented
	}
	s.n["defined"]++
	c.must(e, st, ev.instr, sh == wantShort, "short|"+name, "the flag --%s has the shorthand %q instead of %q", name, sh, wantShort)
	c.must(e, st, ev.instr, kind == wantKind, "kind|"+name, "the flag --%s is of the kind %s instead of %s", name, kind, wantKind)
	if wantDef != "" && def != nil {
		c.must(e, st, ev.instr, constText(def) == wantDef, "default|"+name, "the default of the flag --%s is %v instead of the documented %s", name, def, wantDef)
	}
	c.must(e, st, ev.instr, st.Get("keep:def:"+name) == "", "twice|"+name, "the flag --%s is defined twice", name)
	st.Set("keep:def:"+name, "1")
	if vr.op == OCall && vr.s == "enum" {
		vr = unwrap(vr.args[0])
	}
	if old := s.vars[name]; old == nil {
		s.vars[name] = vr
	}
	if name == "config" {
		c.must(e, st, ev.instr, def == Call("getenv", Str("YOT_CONFIG_FILE")) || def != nil && def.op == OLD && def.args[0] == vr || def != nil && st.mem[vr] == def, "default|config", "the default of --config is %v, which replaces the file named by YOT_CONFIG_FILE", def)
		return
	}
	// the variable
	base, path := vr, ""
	for base.op == OFA && typeName(deref(addrType(base))) != "instructions.Config" {
		if path != "" {
			path = "." + path
		}
		path = base.s + path
		base = base.args[0]
	}
	if wantField != "" {
		c.must(e, st, ev.instr, path == wantField, "field|"+name, "the flag --%s writes to %s instead of %s", name, path, wantField)
		if s.base == nil {
			s.base = base
		}
		c.must(e, st, ev.instr, s.base == base, "config|"+name, "the flag --%s writes to a configuration of its own", name)
	}
}

// addrType: the type of the object an address points to, as far as it is known.
func addrType(t *Term) types.Type {
	if t.op == OAlloc {
		if v, ok := t.site.(ssa.Value); ok {
			return v.Type()
		}
	}
	if t.typ != nil {
		return t.typ
	}
	return types.Typ[types.Invalid]
}

func constText(t *Term) string {
	if s, ok := t.isStr(); ok {
		return `"` + s + `"`
	}
	if n, ok := t.isInt(); ok {
		return Int(n).String()
	}
	switch t {
	case Bool(true):
		return "true"
	case Bool(false):
		return "false"
	}
	return t.String()
}

var levelNames = map[string][]string{
	"CRITICAL": {"critical", "crit", "c"},
	"ERROR":    {"error", "err", "e"},
	"WARNING":  {"warning", "warn", "w"},
	"NOTICE":   {"notice", "note", "n"},
	"INFO":     {"info", "i"},
	"DEBUG":    {"debug", "d", "verbose", "v"},
}

// enum: the names of the log levels (those of the styles are C24's).
func (s *settings) enum(call *ssa.Call) {
	c := s.c
	tab, ok := s.P.mapTable(call.Common().Args[2], 0)
	if !c.Must(ok, "names|"+s.P.ipos(call), s.P.ipos(call), "the names a flag accepts could not be determined") {
		return
	}
	lp := s.P.tpkg("github.com/op/go-logging")
	isLevel := false
	if mi, ok := call.Common().Args[2].(*ssa.MakeInterface); ok {
		if m, ok := mi.X.Type().Underlying().(*types.Map); ok {
			isLevel = typeName(m.Key()) == "logging.Level"
		}
	}
	if !isLevel || lp == nil {
		return
	}
	s.n["levels"]++
	for lv, names := range levelNames {
		k, ok := lp.Scope().Lookup(lv).(*types.Const)
		if !ok {
			continue
		}
		var got []string
		for t, v := range tab {
			if constant.Compare(t, token.EQL, k.Val()) {
				got = v
			}
		}
		c.Must(len(got) > 0 && got[0] == names[0], "level|"+lv, s.P.ipos(call), "the log level %s is passed on as %v instead of %s", lv, got, names[0])
		for _, n := range names {
			has := false
			for _, g := range got {
				has = has || strings.EqualFold(g, n)
			}
			c.Must(has, "level|"+lv+"|"+n, s.P.ipos(call), "the log level %s cannot be given as %s", lv, n)
		}
	}
}

// readers: the functions registered to read the configuration.
func (s *settings) readers() {
	c := s.c
	done := map[*ssa.Function]bool{}
	for _, f := range s.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if n, _ := callName(in); n == "cobra.OnInitialize" {
					for _, g := range initializers(s.P, in.(ssa.CallInstruction).Common().Args[0]) {
						if !done[g] && s.P.reachesCall(g, "viper.ReadInConfig", "(*viper.Viper).ReadInConfig") {
							done[g] = true
							s.reader(g)
						}
					}
				}
			}
		}
	}
	c.least("functions reading the configuration", len(done), 1)
	c.least("configurations read", s.n["read"], 1)
}

// initializers: the functions in a literal list of function values.
func initializers(P *Program, v ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	for _, r := range *sl.X.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			s, ok := q.(*ssa.Store)
			if !ok {
				continue
			}
			fns, _, _ := funcValues(P, s.Val, map[ssa.Value]bool{})
			for _, f := range fns {
				if f.Synthetic != "" {
					// a bound method
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if _, g := callName(in); g != nil && P.inRepo(g) {
								out = append(out, g)
							}
						}
					}
					continue
				}
				out = append(out, f)
			}
		}
	}
	return out
}

var configDirs = []string{"./", "$HOME/.yot/", "/etc/yot/"}

func dirIndex(s string) int {
	switch strings.TrimSuffix(s, "/") {
	case ".", "":
		if s == "" || s == "/" {
			return -1
		}
		return 0
	case "$HOME/.yot", "${HOME}/.yot":
		return 1
	case "/etc/yot":
		return 2
	}
	return -1
}

func (s *settings) reader(f *ssa.Function) {
	c := s.c
	r := &Rule{Name: "config", KeepAll: true}
	isFile := func(t *Term) bool {
		if t == nil {
			return false
		}
		if t.op == OLD && t.args[0].op == OFA && t.args[0].s == s.file && s.file != "" {
			return true
		}
		return t.op == OCall && t.s == "viper.GetString" && len(t.args) > 0 && t.args[len(t.args)-1] == Str("configFile")
	}
	env := func(e *Engine, st *State, in ssa.Instruction, when string) {
		for _, x := range settingTable {
			c.must(e, st, in, st.Get("keep:env:"+x.env) != "", "env|"+x.env, "the environment variable %s is not known to be bound to the setting %s when %s", x.env, x.key, when)
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) { s.tableLoop(e, st, ev) }
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		op := viperCall(ev.name)
		last := func() *Term { return unwrap(ev.args[len(ev.args)-1]) }
		switch op {
		case "":
			return
		case "BindEnv":
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, ev.name, 1)
			k := unwrap(ev.args[len(ev.args)-1])
			if l := e.list(st, k); isListTerm(l) {
				k = l
			}
			names := variadic(e, st, ev)
			if !c.must(e, st, ev.instr, len(names) == 2, "bindenv", "a setting is bound to several environment variables, or to one named after it") {
				return
			}
			ps, nx, ok := s.pairs(names[1], names[0])
			if !c.must(e, st, ev.instr, ok, "bindenv", "the environment variable of a setting could not be determined (%v, %v)", names[0], names[1]) {
				return
			}
			for _, p := range ps {
				x := settingOf(p[1])
				good := x != nil && x.env == p[0]
				documented := false
				for _, y := range settingTable {
					documented = documented || y.env == p[0]
				}
				c.must(e, st, ev.instr, good || x == nil && !documented, "bindenv|"+p[0], "the environment variable %s is bound to the setting %s", p[0], p[1])
				if good {
					s.n["env"]++
					s.mark(st, nx, "env:"+p[0])
				}
			}
		case "SetConfigType":
			ev.handled = true
			t, _ := last().isStr()
			st.Set("keep:type", t)
		case "SetConfigName":
			ev.handled = true
			t, _ := last().isStr()
			st.Set("keep:name", t)
		case "SetConfigFile":
			ev.handled = true
			c.must(e, st, ev.instr, isFile(last()), "file", "the config file is %v instead of the one named by flag or environment variable", last())
			c.must(e, st, ev.instr, st.IsNot(Eq(last(), Str(""))), "file-empty", "the config file is set although there may be no name")
			st.Set("keep:file", "1")
		case "AddConfigPath":
			ev.handled = true
			d, ok := last().isStr()
			i := -1
			if ok {
				i = dirIndex(d)
			}
			c.must(e, st, ev.instr, i >= 0, "location", "the config file is looked for in %v, which is not documented", last())
			st.Set("keep:dirs", st.Get("keep:dirs")+strings.Repeat("x", i+1)+",")
		case "ReadInConfig":
			s.n["read"]++
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, ev.name, 1)
			c.must(e, st, ev.instr, st.Get("keep:type") == "yaml" || st.Get("keep:type") == "yml", "type", "the config file is not known to be read as YAML")
			if st.Get("keep:file") != "" {
				st.Set("keep:done", "1")
				return
			}
			none := st.Get("keep:nofile") != ""
			c.must(e, st, ev.instr, none, "file-ignored", "the default locations are used although a config file may be named by flag or environment variable")
			c.must(e, st, ev.instr, st.Get("keep:name") == "yot.config", "name", "the config file is looked for as %q", st.Get("keep:name"))
			c.must(e, st, ev.instr, st.Get("keep:dirs") == "x,xx,xxx,", "locations", "the config file is not looked for in %v, in this order", configDirs)
			st.Set("keep:done", "1")
		case "Set":
			k, _ := unwrap(ev.args[len(ev.args)-2]).isStr()
			v := last()
			_ = v
			c.must(e, st, ev.instr, strings.EqualFold(k, "configFile"), "set", "a setting is overridden while the configuration is read")
			ev.handled = true
		case "ConfigFileUsed", "GetString", "Get", "IsSet":
		default:
			if !strings.HasPrefix(op, "Get") {
				c.must(e, st, ev.instr, false, "other", "viper.%s changes how settings are found", op)
			}
		}
	}
	r.OnBranch = func(e *Engine, st *State, atom *Term, val bool, in ssa.Instruction) {
		for a := range st.facts.b {
			if a.op == OEq && a.args[0] != nil {
				for i := 0; i < 2; i++ {
					if isFile(a.args[i]) && a.args[1-i] == Str("") && st.Is(a) {
						st.Set("keep:nofile", "1")
					}
				}
			}
		}
		if atom.op == OEq {
			for i := 0; i < 2; i++ {
				if isFile(atom.args[i]) && atom.args[1-i] == Str("") && val {
					st.Set("keep:nofile", "1")
				}
			}
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		env(e, st, in, "the configuration has been read")
		c.must(e, st, in, st.Get("keep:done") != "", "unread", "the configuration is not read on every path")
	}
	c.explore(f, r, nil, nil)
	c.least("environment variables bound", s.n["env"], len(settingTable))
}

// variadic: the arguments of a call with the list of the last parameter taken apart.
func variadic(e *Engine, st *State, ev *CallEv) []*Term {
	var out []*Term
	for i, a := range ev.args {
		if i == 0 && strings.HasPrefix(ev.name, "(*") {
			continue
		}
		l := e.list(st, a)
		if isListTerm(l) || isEmpty(l) {
			if es, ok := elems(l); ok {
				for _, x := range es {
					out = append(out, unwrap(x))
				}
				continue
			}
		}
		out = append(out, unwrap(a))
	}
	return out
}

func elems(l *Term) ([]*Term, bool) {
	switch l.op {
	case OElems:
		return l.args, true
	case OCat:
		var out []*Term
		for _, p := range l.args {
			es, ok := elems(p)
			if !ok {
				return nil, false
			}
			out = append(out, es...)
		}
		return out, true
	}
	return nil, false
}

// uses: how settings are read, overridden and bypassed.
func (s *settings) uses() {
	c, P := s.c, s.P
	read := map[string]int{}
	reads := 0
	values := map[string]string{"LogLevel": "logLevel", "OutputDir": "outputDirectory", "StdOut": "stdout", "Indent": "indentLevel", "Styles": "outputStyle", "RemoveComments": "removeComments", "DefaultOnMissingAction": "defaultOnMissingAction"}
	var own = map[string]bool{}
	for _, st := range settingTable {
		// the variables the flags of settings write to
		if v := s.vars[st.flag]; v != nil && v.op == OFA && typeName(deref(addrType(v.args[0]))) == "instructions.Config" {
			own[v.s] = true
		}
	}
	for f := range values {
		own[f] = true
	}
	for _, f := range P.fns {
		if f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if typeName(deref(x.X.Type())) != "instructions.Config" {
						continue
					}
					fld := deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
					if !own[fld] {
						continue
					}
					for _, r := range *x.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
							c.Must(false, "bypass|"+fnLabel(f)+"|"+fld, P.ipos(u), "%s reads the variable %s of a flag instead of its setting: the environment and the config file are ignored", fnLabel(f), fld)
						}
					}
					c.oblig++
				case ssa.CallInstruction:
					n, _ := callName(x)
					op := viperCall(n)
					if op == "" {
						continue
					}
					args := x.Common().Args
					if strings.HasPrefix(n, "(*") {
						args = args[1:]
					}
					switch {
					case strings.HasPrefix(op, "Get") || op == "IsSet" || op == "InConfig":
						reads++
						c.Must(f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#"), "early|"+pkgShort(f), P.ipos(in), "a setting is read before the command line and the config file are")
						k, ok := constString(P, args[0], 0)
						if !ok {
							c.Must(pkgShort(f) == "commands", "unknown|"+fnLabel(f), P.ipos(in), "%s reads a setting whose name is not known", fnLabel(f))
							continue
						}
						st := settingOf(k)
						if st == nil {
							c.Must(strings.EqualFold(k, "instructionsDir") || strings.EqualFold(k, "instructionDir"), "unknown|"+fnLabel(f)+"|"+k, P.ipos(in), "%s reads the setting %s, which is not documented", fnLabel(f), k)
							continue
						}
						if op == "IsSet" || op == "InConfig" || st.get == nil {
							continue
						}
						good := false
						for _, g := range st.get {
							good = good || g == op
						}
						c.Must(good, "getter|"+fnLabel(f)+"|"+k, P.ipos(in), "%s reads the setting %s with %s, which does not understand every way it can be given", fnLabel(f), k, op)
						if good {
							read[st.key]++
						}
					case op == "Set":
						k, ok := constString(P, args[0], 0)
						if strings.EqualFold(k, "configFile") && ok {
							// what was found may be shown
							continue
						}
						c.Must(ok && settingOf(k) == nil, "override|"+fnLabel(f), P.ipos(in), "%s overrides the setting %s: flag, environment and config file are ignored", fnLabel(f), k)
					case op == "SetDefault":
						k, ok := constString(P, args[0], 0)
						st := settingOf(k)
						if !c.Must(ok, "defaults|"+fnLabel(f), P.ipos(in), "%s sets the default of a setting that is not known", fnLabel(f)) || st == nil {
							continue
						}
						v := args[1]
						if mi, ok := v.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						kc, ok := v.(*ssa.Const)
						c.Must(ok && kc.Value != nil && st.def != "" && kc.Value.ExactString() == st.def, "defaults|"+fnLabel(f)+"|"+k, P.ipos(in), "%s sets the default of %s to something else than the documented one", fnLabel(f), k)
					case op == "SetEnvKeyReplacer", op == "AllowEmptyEnv", op == "Reset", op == "RegisterAlias", op == "SetEnvPrefix", op == "MergeInConfig", op == "MergeConfigMap", op == "MergeConfig", op == "ReadConfig", op == "AutomaticEnv", op == "SetTypeByDefaultValue":
						if op == "AutomaticEnv" || op == "SetEnvPrefix" {
							// further variables, those that are bound stay
							continue
						}
						c.Must(false, "lookup|"+fnLabel(f), P.ipos(in), "viper.%s changes how settings are found", op)
					}
				}
			}
		}
	}
	for _, st := range settingTable {
		if st.get == nil {
			continue
		}
		c.Must(read[st.key] > 0, "unread|"+st.key, "-", "the setting %s is not read anywhere", st.key)
	}
	c.least("settings read", reads, 8)
}

// constString: a constant string, also through parameters that are the same in all calls.
func constString(P *Program, v ssa.Value, depth int) (string, bool) {
	if depth > 4 {
		return "", false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.ChangeType:
		return constString(P, x.X, depth)
	case *ssa.Parameter:
		idx := -1
		for i, p := range x.Parent().Params {
			if p == x {
				idx = i
			}
		}
		res, n := "", 0
		for _, f := range P.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, g := callName(in); g == x.Parent() {
						s, ok := constString(P, in.(ssa.CallInstruction).Common().Args[idx], depth+1)
						if !ok || n > 0 && s != res {
							return "", false
						}
						res = s
						n++
					}
				}
			}
		}
		return res, n > 0
	}
	return "", false
}

// sinks: where the log level, the indent level and the configuration go.
func (s *settings) sinks() {
	c, P := s.c, s.P
	levels, indents, runs := 0, 0, 0
	getter := func(t *Term, g, key string) bool {
		for t != nil && t.op == OCall && strings.HasPrefix(t.s, "conv:") {
			t = t.args[0]
		}
		if t == nil || t.op != OCall || viperCall(t.s) != g {
			return false
		}
		for _, a := range t.args {
			if k, ok := a.isStr(); ok && strings.EqualFold(k, key) {
				return true
			}
		}
		return false
	}
	isLog := func(f *ssa.Function) bool { return P.calls(f, "logging.SetBackend") }
	for _, f := range P.fns {
		if f.Blocks == nil || f.Synthetic != "" || !isLog(f) {
			continue
		}
		root := f
		r := &Rule{Name: "loglevel", KeepAll: true}
		r.OnCall = func(e *Engine, st *State, ev *CallEv) {
			switch {
			case viperCall(ev.name) == "GetString":
				ev.handled = true
				ev.results = []*Term{Call("viper.GetString", ev.args[len(ev.args)-1])}
			case ev.name == "logging.LogLevel":
				ev.handled = true
				t := Call("level", ev.args[0])
				ev.results = []*Term{Ext(t, 0), Ext(t, 1)}
			case strings.HasSuffix(ev.name, ".SetLevel"):
				i := 0
				if len(ev.args) > 2 {
					i = 1
				}
				lv := unwrap(ev.args[i])
				ok := lv.op == OExt && lv.args[0].op == OCall && lv.args[0].s == "level" && getter(lv.args[0].args[0], "GetString", "logLevel")
				c.must(e, st, ev.instr, ok, "level", "the level of the log is %v instead of the one set", lv)
				if ok {
					st.Set("keep:level", "1")
					c.must(e, st, ev.instr, st.Is(Eq(Ext(lv.args[0], 1), Nil())), "level-error", "a log level that is not known to be valid is used")
				}
				ev.handled = true
				ev.results = e.freshResults(st, ev.instr, ev.name, ev.common.Signature().Results().Len())
			case ev.name == "logging.SetBackend":
				st.Set("keep:backend", "1")
				c.must(e, st, ev.instr, st.Get("keep:level") != "", "level-unset", "a backend is used whose level is not known to have been set")
			}
		}
		r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			levels++
			c.must(e, st, in, st.Get("keep:backend") != "", "backend", "the log level set has no effect")
		}
		c.explore(root, r, nil, nil)
	}
	c.least("functions setting up the log", levels, 1)
	for _, f := range P.fns {
		if f.Blocks == nil || f.Synthetic != "" || !P.calls(f, "(*yaml.Encoder).SetIndent") && !P.calls(f, "yaml.NewEncoder") {
			continue
		}
		switch pkgShort(f) {
		case "instructions", "overlays", "actions", "commands":
		default:
			continue
		}
		made := false
		r := &Rule{Name: "indent"}
		r.Stop = func(g *ssa.Function) bool {
			return !P.reachesCall(g, "(*yaml.Encoder).SetIndent", "yaml.NewEncoder", "(*yaml.Encoder).Encode", "viper.GetInt", "(*viper.Viper).GetInt")
		}
		r.OnCall = func(e *Engine, st *State, ev *CallEv) {
			switch {
			case viperCall(ev.name) == "GetInt":
				ev.handled = true
				ev.results = []*Term{Call("viper.GetInt", ev.args[len(ev.args)-1])}
			case ev.name == "(*yaml.Encoder).SetIndent":
				indents++
				c.must(e, st, ev.instr, getter(unwrap(ev.args[1]), "GetInt", "indentLevel") || st.Is(EqInt(ev.args[1], Call("viper.GetInt", Str("indentLevel")))), "indent", "documents are indented by %v instead of the indent level set", ev.args[1])
				st.Set("indent:"+ref(ev.args[0]), ref(ev.args[0])+" ")
			case ev.name == "(*yaml.Encoder).Encode" && made:
				c.must(e, st, ev.instr, st.Get("indent:"+ref(ev.args[0])) != "", "indent-unset", "a document is encoded by an encoder whose indent level is not known to have been set")
			}
		}
		made = P.calls(f, "yaml.NewEncoder")
		c.explore(f, r, nil, nil)
	}
	c.least("indent levels set", indents, 1)
	// the root command
	hooks := map[string]int{}
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if ok {
					if fa, isF := st.Addr.(*ssa.FieldAddr); isF && typeName(deref(fa.X.Type())) == "cobra.Command" {
						fld := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
						fns, _, _ := funcValues(P, st.Val, map[ssa.Value]bool{})
						for _, g := range fns {
							if exe := P.Func("instructions", "Execute"); exe != nil && P.reaches(g, exe) && (fld == "RunE" || fld == "Run") {
								hooks["run"]++
							}
							for h := range P.reach(g) {
								if isLog(h) && (fld == "PersistentPreRun" || fld == "PersistentPreRunE" || fld == "PreRun" || fld == "PreRunE") {
									hooks["log"]++
								}
							}
						}
					}
				}
				if n, g := callName(in); n == "instructions.Execute" && g != nil {
					runs++
					arg := in.(ssa.CallInstruction).Common().Args[0]
					okA := false
					if u, isU := arg.(*ssa.UnOp); isU && u.Op == token.MUL {
						if fa, isF := u.X.(*ssa.FieldAddr); isF {
							okA = deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == s.config
						}
					}
					c.Must(okA, "run|"+fnLabel(f), P.ipos(in), "%s runs with something else than the configuration the flags write to", fnLabel(f))
				}
			}
		}
	}
	c.Must(hooks["run"] > 0, "hook|run", "-", "no command runs Execute")
	c.Must(hooks["log"] > 0, "hook|log", "-", "no command sets up the log before it runs")
	c.least("calls of Execute", runs, 1)
	if s.n["levels"] == 0 {
		c.Must(false, "levels", "-", "the names of the log levels were not found")
	}
}
