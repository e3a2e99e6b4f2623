package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// rules of each property.
var registry = map[string][]func(*Check){
	"C01": {ruleShared},
	"C02": {ruleCopies},
	"C03": {ruleCommon},
	"C04": {ruleRun},
	"C05": {ruleRun, ruleIndexChecks},
	"C10": {ruleRun},
	"C19": {ruleDelete},
	"C30": {ruleMerge, ruleReplace, ruleCombineComments},
	"C16": {ruleRemoveComments},
	"C17": {ruleMerge, ruleReplace, ruleCombineComments},
	"C18": {ruleMerge},
	"C21": {ruleReplace},
	"C32": {ruleMerge},
	"C20": {ruleCombine},
	"C06": {ruleDocumentQuery, ruleApply, ruleQueries},
	"C07": {ruleApply, ruleQueries},
	"C11": {ruleOutput, ruleEffects},
	"C12": {ruleOutput, ruleOutputPath},
	"C13": {ruleOutput},
	"C14": {ruleOutput, ruleStdout},
	"C09": {ruleErrors},
	"C31": {ruleReadAll},
	"C29": {ruleFiles},
	"C25": {ruleValues},
	"C15": {ruleDeterminism},
	"C26": {ruleCrash},
	"C27": {ruleEnds},
	"C28": {ruleBuilder},
	"C22": {ruleSettings},
	"C24": {ruleStyles},
	"C23": {ruleActionNames},
	"C08": {ruleApply, ruleQueries},
}

type known struct{ prop, key, text string }

// readKnown reads lines "known: property=<id> key=<rule|construct> <what fails>".
func readKnown(file string) ([]known, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(fs) < 3 || !strings.HasPrefix(fs[0], "property=") || !strings.HasPrefix(fs[1], "key=") {
			return nil, fmt.Errorf("bad line %q", l)
		}
		out = append(out, known{fs[0][9:], fs[1][4:], fs[2]})
	}
	return out, sc.Err()
}

func main() {
	prop := flag.String("prop", "", "property to check (or several, separated by commas)")
	dir := flag.String("repo", "/repo", "repository to analyse")
	knownFile := flag.String("known", "", "known findings file")
	evdir := flag.String("evidence", "", "directory of the evidence files")
	verbose := flag.Bool("v", false, "print the path of each finding")
	dbg := flag.String("debug", "", "pkg.Func to explore")
	flag.Parse()

	t0 := time.Now()
	P, err := Load(*dir)
	if *dbg != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugRun(P, *dbg)
		return
	}
	props := strings.Split(*prop, ",")
	if *prop == "all" {
		props = nil
		for p := range registry {
			props = append(props, p)
		}
		sort.Strings(props)
	}
	var kn []known
	if *knownFile != "" {
		var kerr error
		if kn, kerr = readKnown(*knownFile); kerr != nil {
			fmt.Println("known findings:", kerr)
			os.Exit(2)
		}
	}
	rc := 0
	for _, p := range props {
		t1 := t0
		if len(props) > 1 {
			t1 = time.Now()
		}
		c := newCheck(P, p)
		if err != nil {
			c.Must(false, "load", "-", "the repository could not be loaded and type checked: %v", err)
		} else if len(registry[p]) == 0 {
			fmt.Println("no such property:", p)
			os.Exit(2)
		} else {
			for _, r := range registry[p] {
				guard(c, r)
			}
		}
		if report(c, kn, *evdir, *verbose, time.Since(t1)) {
			rc = 1
		}
	}
	os.Exit(rc)
}

// guard turns a panic of a rule into a finding.
func guard(c *Check, r func(*Check)) {
	defer func() {
		if x := recover(); x != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 14 {
				st = st[7:14]
			}
			c.Must(false, "panic", "-", "the analysis failed: %v %s", x, strings.Join(st, " "))
		}
	}()
	r(c)
}

func report(c *Check, kn []known, evdir string, verbose bool, d time.Duration) bool {
	var viol []Finding
	kseen := 0
	for _, f := range c.findings {
		listed := false
		for _, k := range kn {
			if k.prop == c.id && k.key == f.key {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s %s)\n", c.id, k.text, f.pos, f.key)
				listed = true
				kseen++
				break
			}
		}
		if !listed {
			viol = append(viol, f)
		}
	}
	fmt.Printf("%s: %d obligations at %d constructs, %d functions, %d blocks, %d abstract states, %d paths; %d findings, %.1fs\n", c.id, c.oblig, len(c.sites), len(c.fns), c.blocks, c.states, c.paths, len(c.findings), d.Seconds())
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	var fns, sites []string
	for f := range c.fns {
		fns = append(fns, fnLabel(f)+" "+c.P.pos(f.Pos()))
	}
	sort.Strings(fns)
	for s := range c.sites {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	if evdir != "" {
		os.MkdirAll(evdir, 0o755)
		ev := map[string]interface{}{
			"property": c.id, "tier": tier, "seed": seed, "level": "other", "wall_s": d.Seconds(), "violations": len(viol),
			"coverage": map[string]interface{}{
				"explanation": "Static analysis of the current source (typed SSA of every package). The rules applied, the functions and constructs they were evaluated at and the number of obligations are measured on this run.",
				"rules":       c.rules, "functions": fns, "constructs": sites,
				"obligations_evaluated": c.oblig, "obligations_failed": c.bad, "known_findings": kseen,
				"basic_blocks": c.blocks, "abstract_states": c.states, "path_ends": c.paths, "call_sites": c.calls, "notes": c.notes,
			},
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evdir, c.id+".json"), append(b, '\n'), 0o644)
	}
	replay := filepath.Join(evdir, "replay-"+c.id+".txt")
	if len(viol) == 0 {
		if evdir != "" {
			os.Remove(replay)
		}
		return false
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", c.id)
	for _, r := range c.rules {
		fmt.Fprintf(&sb, "rule: %s\n", r)
	}
	for _, f := range viol {
		fmt.Fprintf(&sb, "\n%s: %s\n  key %s\n", f.pos, f.msg, f.key)
		for _, t := range f.trl {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	if evdir != "" {
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	for i, f := range viol {
		if i < 12 {
			fmt.Printf("  %s: %s [%s]\n", f.pos, f.msg, f.key)
			if verbose {
				for _, t := range f.trl {
					fmt.Printf("      %s\n", t)
				}
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return true
}
