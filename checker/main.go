package main

// Driver: analyses /repo's current source for one property and reports.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
	Status    string `json:"status"` // ok, violated, undecided
	Where     string `json:"where,omitempty"`
}

// Report of one rule run.
type Rep struct {
	Prop    string
	Tier    string
	P       *Prog
	obls    []Obl
	idx     map[string]int
	fns     map[string]bool
	samples map[string]string
	extra   map[string]interface{}
	assume  []string
	rules   map[string]string // rule -> description
	min     map[string]int

	part, parts int  // which share of the items of each() to run
	spawned     bool // children have run
	quiet       bool // nothing is recorded
	repo        string
}

type partial struct {
	Obls []Obl
	Fns  []string
}

// each runs f for every item below n, divided over processes of this
// program by their cost.
func (r *Rep) each(n int, cost func(i int) int, f func(i int)) {
	parts := r.parts
	if parts == 0 {
		parts = runtime.NumCPU()
		if parts > 8 {
			parts = 8
		}
		if parts > n {
			parts = n
		}
		if parts <= 1 || r.spawned {
			if !r.spawned {
				for i := 0; i < n; i++ {
					f(i)
				}
			}
			return
		}
		r.spawn(parts)
		return
	}
	ord := make([]int, n)
	for i := range ord {
		ord[i] = i
	}
	sort.SliceStable(ord, func(a, b int) bool { return cost(ord[a]) > cost(ord[b]) })
	load := make([]int, parts)
	for _, i := range ord {
		k := 0
		for j := range load {
			if load[j] < load[k] {
				k = j
			}
		}
		load[k] += cost(i)
		if k == r.part {
			t0 := time.Now()
			f(i)
			dbg("item %d: %v", i, time.Since(t0))
		}
	}
}

func (r *Rep) spawn(parts int) {
	r.spawned = true
	type res struct {
		p   partial
		err string
	}
	ch := make(chan res, parts)
	exe, err := os.Executable()
	if err != nil {
		r.undec("analysis", "engine", "", "%v", err)
		return
	}
	// an analysis that takes too long has no result
	ctx, cancel := context.WithTimeout(context.Background(), 800*time.Second)
	defer cancel()
	for k := 0; k < parts; k++ {
		cmd := exec.CommandContext(ctx, exe, "-prop", r.Prop, "-repo", r.repo, "-only", onlyTuple, "-plat", onlyPlat, "-part", fmt.Sprintf("%d/%d", k, parts))
		cmd.Env = os.Environ()
		var errb bytes.Buffer
		cmd.Stderr = &errb
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		go func() {
			// the signal comes when the thread ends
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			out, err := cmd.Output()
			var x res
			if err == nil {
				err = json.Unmarshal(out, &x.p)
			}
			if err != nil {
				x.err = fmt.Sprintf("%v: %.2000s", err, errb.String())
			}
			ch <- x
		}()
	}
	for k := 0; k < parts; k++ {
		x := <-ch
		if x.err != "" {
			r.undec("analysis", "engine", "", "part of the analysis failed: %s", x.err)
		}
		for _, o := range x.p.Obls {
			r.put(o.Status, o.Rule, o.Construct, o.Where, "%s", o.What)
		}
		for _, f := range x.p.Fns {
			r.fns[f] = true
		}
	}
}

func (r *Rep) put(status, rule, construct, where, format string, a ...interface{}) {
	if r.quiet {
		return
	}
	what := fmt.Sprintf(format, a...)
	k := rule + "\x00" + construct + "\x00" + what
	if status == "ok" {
		k = rule + "\x00" + construct + "\x00" + what
	}
	if i, ok := r.idx[k]; ok {
		if status != "ok" {
			r.obls[i].Status = status
			r.obls[i].Where = where
		}
		return
	}
	r.idx[k] = len(r.obls)
	r.obls = append(r.obls, Obl{rule, construct, what, status, where})
}

func (r *Rep) ok(rule, construct, format string, a ...interface{}) {
	r.put("ok", rule, construct, "", format, a...)
}
func (r *Rep) viol(rule, construct, where, format string, a ...interface{}) {
	r.put("violated", rule, construct, where, format, a...)
}
func (r *Rep) undec(rule, construct, where, format string, a ...interface{}) {
	r.put("undecided", rule, construct, where, format, a...)
}

// check records an obligation and its outcome
func (r *Rep) check(ok bool, rule, construct, where, format string, a ...interface{}) bool {
	if ok {
		r.ok(rule, construct, format, a...)
	} else {
		r.viol(rule, construct, where, format, a...)
	}
	return ok
}

// rule declares a rule and the least number of obligations it must produce.
func (r *Rep) rule(id, text string, min int) {
	r.rules[id] = text
	r.min[id] = min
}

func (r *Rep) seen(in *Interp) {
	for f := range in.fnsSeen {
		r.fns[fnName(f)] = true
	}
}

func (r *Rep) seenFn(f *ssa.Function) { r.fns[fnName(f)] = true }

type propRule struct {
	id    string
	run   func(r *Rep)
	about string // method, for the evidence
}

var propRules = map[string]propRule{}

func register(id, about string, run func(r *Rep)) { propRules[id] = propRule{id, run, about} }

var onlyTuple, onlyPlat string

type known struct {
	rule, construct, line string
	hit                   bool
}

// open entries of the known findings file for this property
func loadKnown(path, prop string) (r []*known, err error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "open: property="+prop+" ") {
			continue
		}
		k := &known{line: strings.TrimPrefix(l, "open: property="+prop+" ")}
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "rule=") {
				k.rule = f[5:]
			}
			if strings.HasPrefix(f, "construct=") {
				k.construct = f[10:]
			}
		}
		r = append(r, k)
	}
	return
}

func main() {
	prop := flag.String("prop", "", "property to decide")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	knownFile := flag.String("known", "/verif/known_findings.txt", "known findings")
	list := flag.Bool("list", false, "list properties")
	only := flag.String("only", "", "restrict to parameter tuples containing this text (debugging)")
	plat := flag.String("plat", "", "GOOS/GOARCH to analyse for (debugging)")
	prof := flag.String("prof", "", "write CPU profile")
	verbose := flag.Bool("v", false, "print every obligation")
	part := flag.String("part", "", "run one share of the analysis (internal)")
	flag.Parse()
	if *list {
		var ids []string
		for k := range propRules {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	pr, ok := propRules[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	onlyTuple = *only
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		time.AfterFunc(12*time.Second, func() { pprof.StopCPUProfile(); f.Close() })
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if *part != "" {
		debug.SetMemoryLimit(3 << 30)
	}
	r := &Rep{Prop: *prop, Tier: tier, idx: map[string]int{}, fns: map[string]bool{}, samples: map[string]string{},
		extra: map[string]interface{}{}, rules: map[string]string{}, min: map[string]int{}, repo: *repo}
	if *part != "" {
		if _, err := fmt.Sscanf(*part, "%d/%d", &r.part, &r.parts); err != nil || r.parts < 1 {
			fmt.Fprintln(os.Stderr, "bad -part")
			os.Exit(2)
		}
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if a, ok := x.(abortAll); ok {
					r.undec("analysis", "engine", "", "%s", a.why)
					return
				}
				r.undec("analysis", "engine", "", "internal error: %v", x)
				fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
			}
		}()
		var lc LoadConf
		if *plat != "" {
			onlyPlat = *plat
			i := strings.IndexByte(*plat, '/')
			lc.GOOS, lc.GOARCH = (*plat)[:i], (*plat)[i+1:]
			if types.SizesFor("gc", lc.GOARCH).Sizeof(types.Typ[types.Int]) == 4 {
				intBits = 32
			}
		}
		p, err := loadRepo(*repo, lc)
		if err != nil {
			r.undec("load", "repository", "", "the repository does not load: %v", err)
			return
		}
		r.P = p
		pr.run(r)
	}()
	if *part != "" {
		pt := partial{Obls: r.obls}
		for f := range r.fns {
			pt.Fns = append(pt.Fns, f)
		}
		json.NewEncoder(os.Stdout).Encode(pt)
		return
	}
	counts := map[string]int{}
	for _, o := range r.obls {
		counts[o.Rule]++
	}
	var rules []string
	for id := range r.rules {
		rules = append(rules, id)
	}
	sort.Strings(rules)
	for _, id := range rules {
		if counts[id] < r.min[id] {
			r.undec(id, "coverage", "", "only %d obligations found, at least %d expected", counts[id], r.min[id])
		}
	}
	if len(r.obls) == 0 {
		r.undec("analysis", "engine", "", "nothing was analysed")
	}
	kn, err := loadKnown(*knownFile, *prop)
	if err != nil {
		r.undec("known", "known findings", "", "%v", err)
	}
	nOK := 0
	var bad []Obl
	for _, o := range r.obls {
		if *verbose {
			fmt.Printf("%-9s %-14s %s: %s %s\n", o.Status, o.Rule, o.Construct, o.What, o.Where)
		}
		if o.Status == "ok" {
			nOK++
			continue
		}
		match := false
		for _, k := range kn {
			if k.rule == o.Rule && k.construct == strings.ReplaceAll(o.Construct, " ", "_") {
				match, k.hit = true, true
			}
		}
		if !match {
			bad = append(bad, o)
		}
	}
	for _, k := range kn {
		if k.hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.line)
		}
	}
	if err := r.writeEvidence(*out, pr, tier, seed, nOK, len(bad), counts, time.Since(start).Seconds()); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if len(bad) > 0 {
		path := filepath.Join(*out, *prop+".violations.json")
		b, _ := json.MarshalIndent(bad, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		for i, o := range bad {
			if i == 20 {
				fmt.Printf("... and %d more\n", len(bad)-i)
				break
			}
			fmt.Printf("%s [%s] %s: %s %s\n", strings.ToUpper(o.Status), o.Rule, o.Construct, o.What, o.Where)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		os.Exit(1)
	}
	os.Remove(filepath.Join(*out, *prop+".violations.json"))
	fmt.Printf("property %s holds: %d obligations discharged, %d functions analysed, %.1fs\n", *prop, nOK, len(r.fns), time.Since(start).Seconds())
}

func (r *Rep) writeEvidence(dir string, pr propRule, tier string, seed, nOK, nBad int, counts map[string]int, wall float64) error {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []interface{}
	per := map[string]int{}
	for _, o := range r.obls {
		if per[o.Rule] < 3 {
			samples = append(samples, o)
		}
		per[o.Rule]++
	}
	cov := map[string]interface{}{
		"explanation":         pr.about,
		"obligations":         len(r.obls),
		"discharged":          nOK,
		"rules":               r.rules,
		"obligations_by_rule": counts,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"samples":             samples,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": nBad,
	}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0644)
}
