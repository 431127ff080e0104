package main

// R01 R02 R03 E01: parameters, their encodings and names.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register("R01", "The tables of algorithms are evaluated from the initialisers and compared with a table derived from RFC 8391 and NIST SP 800-208; "+
		"the lookup functions are evaluated abstractly for every entry and for unknown names, identifiers and parameters, with a case split over the tables.", runR01)
	register("R02", "Abstract interpretation of the printer and the parser of names over structured strings (constants, decimals of symbolic numbers, opaque words): "+
		"print and parse are composed for symbolic heights and layers, and every way the parser accepts a name is compared with what the parts spell out.", runR02)
	register("R03", "Abstract interpretation of NewContext for every pair of heights and layers and symbolic other parameters: the accepted ones and the derived sizes are "+
		"compared with the formulas of the specifications in exact arithmetic.", runR03)
	register("E01", "Abstract interpretation of encoder and decoder of parameters over symbolic fields and symbolic bytes: every way they succeed composes to the identity.", runE01)
}

type regRow struct {
	name string
	mt   bool
	oid  int64
	pa   Params
	nist bool
}

// The algorithms of RFC 8391 (sections 5.3, 5.4, Appendix) and of NIST SP
// 800-208 (sections 5.1 to 5.4 and Appendix A) in the order of their OIDs.
func specRegistry() (rows []regRow) {
	type fam struct {
		f, n, prf int64
		nist      bool
	}
	fams := []fam{{0, 32, 0, false}, {0, 64, 0, false}, {1, 32, 0, false}, {1, 64, 0, false}, {0, 24, 1, true}, {2, 32, 0, true}, {2, 24, 1, true}}
	hn := []string{"SHA2", "SHAKE", "SHAKE256"}
	oid := int64(1)
	for _, f := range fams {
		for _, h := range []int64{10, 16, 20} {
			rows = append(rows, regRow{fmt.Sprintf("XMSS-%s_%d_%d", hn[f.f], h, 8*f.n), false, oid, Params{f.f, f.n, h, 1, 16, f.prf}, f.nist})
			oid++
		}
	}
	oid = 1
	for _, f := range fams {
		for _, hd := range [][2]int64{{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}} {
			rows = append(rows, regRow{fmt.Sprintf("XMSSMT-%s_%d/%d_%d", hn[f.f], hd[0], hd[1], 8*f.n), true, oid,
				Params{f.f, f.n, hd[0], hd[1], 16, f.prf}, f.nist})
			oid++
		}
	}
	return
}

// integer of a term, -1 if it is not constant
func (st *State) intOf(v Val) int64 {
	t, ok := v.(*Term)
	if !ok || t.P == nil {
		return -1
	}
	n, ok := st.facts.norm(t.P).constI()
	if !ok {
		return -1
	}
	return n
}

func (st *State) deref(v Val) Val {
	if p, ok := v.(*Ptr); ok {
		return st.load(p)
	}
	return v
}

// differences between the parameters v and pa
func (r *Rep) paramsDiff(st *State, v Val, pa *Agg) string {
	a, ok := st.deref(v).(*Agg)
	if !ok {
		return "no parameters"
	}
	s := pa.T.Underlying().(*types.Struct)
	for i := 0; i < pa.N; i++ {
		x, y := a.get(st, pConstI(int64(i))), pa.get(st, pConstI(int64(i)))
		if st.facts.decide(st.eqVal(x, y)) != 1 {
			return fmt.Sprintf("%s is %v instead of %v", s.Field(i).Name(), showT(st, x), showT(st, y))
		}
	}
	return ""
}

func showT(st *State, v Val) string {
	if t, ok := v.(*Term); ok {
		if t.P != nil {
			return st.facts.norm(t.P).str(4)
		}
		return t.str(4)
	}
	return "?"
}

// 1 the error is nil, -1 it is not, 0 not known
func errNil(st *State, v Val) int { return st.facts.decide(st.eqVal(v, NilV{})) }

func (r *Rep) ctxParams(st *State, v Val) Val {
	os := newInterp(r.P).Exec(st.clone(), nil, r.P.needFn("Context.Params"), []Val{v}, nil, nil)
	if len(os) != 1 || os[0].Panic {
		return nil
	}
	return os[0].Ret
}

func (r *Rep) paramInterp() *Interp {
	in := newInterp(r.P)
	in.ForkMaps = true
	return in
}

func (r *Rep) undecAll(in *Interp, rule, name string) {
	for _, u := range in.undec {
		r.undec(rule, name, "", "%s", u)
	}
	r.seen(in)
}

// call with panics reported
func (r *Rep) outcomes(in *Interp, st *State, rule, name, fn string, args ...Val) []Outcome {
	var res []Outcome
	for _, o := range in.Exec(st, nil, r.P.needFn(fn), args, nil, nil) {
		if o.Panic {
			r.viol(rule, name, r.P.pos(o.Pos), "%s panics (%s) %s", fn, o.Why, pcString(o.St))
			continue
		}
		res = append(res, o)
	}
	return res
}

func pcString(st *State) string {
	var s []string
	n := 0
	for _, c := range st.pc {
		if n++; n > 6 {
			break
		}
		s = append(s, c.str(3))
	}
	if len(s) == 0 {
		return ""
	}
	return "if " + strings.Join(s, ", ")
}

func runR01(r *Rep) {
	r.rule("table", "exactly the algorithms of the specifications are listed, each once", 77)
	r.rule("entry", "looking up a listed algorithm by name, identifier and parameters gives its name, identifier and parameters", 77*5)
	r.rule("origin", "algorithms are reported as listed by the document that lists them", 77)
	r.rule("other", "other names, identifiers and parameters are not found", 4)
	r.rule("useful", "all names listed as useful are supported and distinct", 300)
	base := r.initState()
	rows := specRegistry()
	r.P.setX4(base, false)

	// the list of names
	in := r.paramInterp()
	st, v := exec1(in, base.clone(), r.P.needFn("ListNames"))
	names := map[string]int{}
	if s := asSlice(v); s != nil {
		n := st.intOf(s.Len)
		for i := int64(0); i < n; i++ {
			if c, ok := constStr(st.sliceGet(s, pConstI(i))); ok {
				names[c]++
			} else {
				r.undec("table", "ListNames", "", "name %d is not constant", i)
			}
		}
	}
	want := map[string]bool{}
	for _, row := range rows {
		want[row.name] = true
		r.check(names[row.name] == 1, "table", row.name, "", "listed once")
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if !want[n] {
			r.viol("table", n, "", "%s is listed, but no such algorithm is specified", n)
		}
	}

	r.each(len(rows)+5, func(i int) int {
		if i >= len(rows) {
			return 40
		}
		return 3
	}, func(i int) {
		if i < len(rows) {
			r.regEntry(base, rows[i])
			return
		}
		switch i - len(rows) {
		case 0, 1:
			r.otherOid(base, rows, i-len(rows) == 0)
		case 2:
			r.otherName(base, rows)
		case 3:
			r.otherParams(base, rows)
		case 4:
			r.useful(base)
		}
	})
}

// Checks a context against the row.
func (r *Rep) ctxIs(in *Interp, st *State, rule, name, how string, v Val, row *regRow) {
	p, ok := v.(*Ptr)
	if !ok {
		r.viol(rule, name, "", "%s: not found", how)
		return
	}
	bad := r.paramsDiff(st, r.ctxParams(st, p), r.P.paramsVal(st, row.pa))
	get := func(m string) Val {
		os := in.Exec(st.clone(), nil, r.P.needFn("Context."+m), []Val{p}, nil, nil)
		if len(os) != 1 || os[0].Panic {
			r.undec(rule, name, "", "%s: %s has %d outcomes", how, m, len(os))
			return nil
		}
		return os[0].Ret
	}
	if o := st.intOf(get("Oid")); o != row.oid {
		bad += fmt.Sprintf(" identifier is %d instead of %d", o, row.oid)
	}
	if n, _ := constStr(get("Name")); n != row.name {
		bad += fmt.Sprintf(" name is %q instead of %q", n, row.name)
	}
	if d := st.facts.decide(asBool(get("MT"))); (d == 1) != row.mt || d == 0 {
		bad += " kind (XMSS, XMSSMT) is wrong"
	}
	for _, m := range []string{"FromNIST", "FromRFC"} {
		w := row.nist == (m == "FromNIST") && row.oid != 0
		if d := st.facts.decide(asBool(get(m))); (d == 1) != w || d == 0 {
			r.viol("origin", name, "", "%s: %s should be %v", how, m, w)
		} else {
			r.ok("origin", name, "%s", m)
		}
	}
	r.check(bad == "", rule, name, "", "%s%s", how, pre(": ", bad))
}

func pre(p, s string) string {
	if s == "" {
		return ""
	}
	return p + s
}

func (r *Rep) regEntry(base *State, row regRow) {
	in := r.paramInterp()
	pv := r.P.paramsVal(base, row.pa)
	one := func(fn string, args ...Val) (*State, Val) {
		os := r.outcomes(in, base.clone(), "entry", row.name, fn, args...)
		if len(os) != 1 {
			r.undec("entry", row.name, "", "%s has %d outcomes", fn, len(os))
			return nil, nil
		}
		return os[0].St, os[0].Ret
	}
	if st, v := one("ParamsFromName", strC(row.name)); st != nil {
		d := r.paramsDiff(st, v, pv)
		r.check(d == "", "entry", row.name, "", "ParamsFromName%s", pre(": ", d))
	}
	if st, v := one("ParamsFromName2", strC(row.name)); st != nil {
		t := v.(Tuple)
		d := r.paramsDiff(st, t[0], pv)
		r.check(d == "" && errNil(st, t[1]) == 1, "entry", row.name, "", "ParamsFromName2%s", pre(": ", d))
	}
	if st, v := one("NewContextFromName", strC(row.name)); st != nil {
		r.ctxIs(in, st, "entry", row.name, "NewContextFromName", v, &row)
	}
	if st, v := one("NewContextFromName2", strC(row.name)); st != nil {
		t := v.(Tuple)
		r.ctxIs(in, st, "entry", row.name, "NewContextFromName2", t[0], &row)
	}
	if st, v := one("NewContextFromOid", bConst(row.mt), intC(row.oid, 32, false)); st != nil {
		r.ctxIs(in, st, "entry", row.name, "NewContextFromOid", v, &row)
	}
	if st, v := one("NewContext", pv); st != nil {
		r.ctxIs(in, st, "entry", row.name, "NewContext", v.(Tuple)[0], &row)
	}
	st := base.clone()
	o := newObj("params", pv.T)
	st.heap[o] = pv
	os := r.outcomes(in, st, "entry", row.name, "Params.LookupNameAndOid", &Ptr{Obj: o})
	if len(os) == 1 {
		t := os[0].Ret.(Tuple)
		n, _ := constStr(t[0])
		r.check(n == row.name && os[0].St.intOf(t[1]) == row.oid, "entry", row.name, "", "LookupNameAndOid")
	} else {
		r.undec("entry", row.name, "", "LookupNameAndOid has %d outcomes", len(os))
	}
	r.undecAll(in, "entry", row.name)
}

func (r *Rep) otherOid(base *State, rows []regRow, mt bool) {
	in := r.paramInterp()
	st := base.clone()
	oid := symInt("oid", 32, false)
	name := fmt.Sprintf("NewContextFromOid mt=%v", mt)
	none := 0
	for _, o := range r.outcomes(in, st, "other", name, "NewContextFromOid", bConst(mt), oid) {
		d := o.St.facts.decide(o.St.eqVal(o.Ret, NilV{}))
		if d == 1 {
			for _, row := range rows {
				if row.mt == mt && o.St.facts.decide(bEQ0(pSub(oid.P, pConstI(row.oid)))) != -1 {
					r.viol("other", name, "", "%s may not be found", row.name)
				}
			}
			none++
			continue
		}
		if d == 0 {
			r.undec("other", name, "", "result may be nil")
			continue
		}
		v := o.St.intOf(oid)
		found := false
		for _, row := range rows {
			if row.mt == mt && row.oid == v {
				found = true
				r.ctxIs(in, o.St, "entry", row.name, "NewContextFromOid", o.Ret, &row)
			}
		}
		if !found {
			r.viol("other", name, "", "a context for identifier %v, which is not specified", showT(o.St, oid))
		}
	}
	r.check(none > 0, "other", name, "", "other identifiers are not found")
	r.undecAll(in, "other", name)
}

func (r *Rep) otherName(base *State, rows []regRow) {
	for _, fn := range []string{"ParamsFromName", "NewContextFromName"} {
		in := r.paramInterp()
		nm := strAtom("name", "")
		none := 0
		for _, o := range r.outcomes(in, base.clone(), "other", fn, fn, nm) {
			d := o.St.facts.decide(o.St.eqVal(o.Ret, NilV{}))
			if d == 1 {
				none++
				for _, row := range rows {
					if o.St.facts.decide(strEq(nm, strC(row.name))) != -1 {
						r.viol("other", fn, "", "%s may not be found", row.name)
					}
				}
				continue
			}
			if d == 0 {
				r.undec("other", fn, "", "result may be nil")
				continue
			}
			found := false
			for _, row := range rows {
				if o.St.facts.decide(strEq(nm, strC(row.name))) == 1 {
					found = true
					pv := r.P.paramsVal(o.St, row.pa)
					v := o.Ret
					if fn != "ParamsFromName" {
						v = r.ctxParams(o.St, v)
					}
					dd := r.paramsDiff(o.St, v, pv)
					r.check(dd == "", "entry", row.name, "", "%s%s", fn, pre(": ", dd))
				}
			}
			if !found {
				r.viol("other", fn, "", "finds an algorithm for a name which is not specified: %s", pcString(o.St))
			}
		}
		r.check(none > 0, "other", fn, "", "other names are not found")
		r.undecAll(in, "other", fn)
	}
}

// symbolic parameters
func (r *Rep) symParams(st *State, fix map[string]int64) (*Agg, map[string]*Term) {
	t := r.P.namedType("Params")
	a := &Agg{T: t, N: t.Underlying().(*types.Struct).NumFields()}
	m := map[string]*Term{}
	for _, n := range []string{"Func", "N", "FullHeight", "D", "WotsW", "Prf"} {
		i := fieldIdx(t, n)
		if i < 0 {
			panic(abortAll{"Params has no field " + n})
		}
		w, sg, _ := basicInfo(a.elemType(i))
		v := symInt(n, w, sg)
		if k, ok := fix[n]; ok {
			v = intC(k, w, sg)
		}
		a.el.set(i, v)
		m[n] = v
	}
	freeze(a)
	return a, m
}

func (r *Rep) otherParams(base *State, rows []regRow) {
	fn := "Params.LookupNameAndOid"
	in := r.paramInterp()
	st := base.clone()
	pv, _ := r.symParams(st, nil)
	o := newObj("params", pv.T)
	st.heap[o] = pv
	none := 0
	for _, o := range r.outcomes(in, st, "other", fn, fn, &Ptr{Obj: o}) {
		t := o.Ret.(Tuple)
		n, ok := constStr(t[0])
		if !ok {
			r.undec("other", fn, "", "name is not known")
			continue
		}
		if n == "" {
			none++
			r.check(o.St.intOf(t[1]) == 0, "other", fn, "", "no identifier without a name")
			for _, row := range rows {
				if o.St.facts.decide(o.St.eqVal(pv, r.P.paramsVal(o.St, row.pa))) != -1 {
					r.viol("other", fn, "", "%s may not be found", row.name)
				}
			}
			continue
		}
		found := false
		for _, row := range rows {
			if row.name == n {
				found = true
				d := r.paramsDiff(o.St, pv, r.P.paramsVal(o.St, row.pa))
				r.check(d == "" && o.St.intOf(t[1]) == row.oid, "entry", n, "", "LookupNameAndOid%s", pre(": ", d))
			}
		}
		if !found {
			r.viol("other", fn, "", "unknown name %s", n)
		}
	}
	r.check(none > 0, "other", fn, "", "other parameters are not found")
	r.undecAll(in, "other", fn)
}

func (r *Rep) useful(base *State) {
	in := r.paramInterp()
	st, v := exec1(in, base.clone(), r.P.needFn("ListNames2"))
	s := asSlice(v)
	if s == nil {
		r.undec("useful", "ListNames2", "", "no list")
		return
	}
	n := st.intOf(s.Len)
	seen := map[string]bool{}
	for i := int64(0); i < n; i++ {
		c, ok := constStr(st.sliceGet(s, pConstI(i)))
		if !ok {
			r.undec("useful", "ListNames2", "", "name %d is not constant", i)
			continue
		}
		os := in.Exec(base.clone(), nil, r.P.needFn("NewContextFromName2"), []Val{strC(c)}, nil, nil)
		good := len(os) == 1 && !os[0].Panic && errNil(os[0].St, os[0].Ret.(Tuple)[1]) == 1
		r.check(good && !seen[c], "useful", c, "", "supported and listed once")
		seen[c] = true
	}
	r.undecAll(in, "useful", "ListNames2")
}

// ---- R02

func runR02(r *Rep) {
	r.rule("roundtrip", "parsing the name printed for parameters gives these parameters", 100)
	r.rule("denotes", "every name that is accepted denotes exactly what its parts spell out", 100)
	base := r.initState()
	r.P.setX4(base, false)
	type job struct {
		pa Params
		mt bool
	}
	var jobs []job
	for f := int64(0); f < 3; f++ {
		for _, n := range []int64{16, 24, 32, 64} {
			for prf := int64(0); prf < 2; prf++ {
				for _, w := range []int64{4, 16, 256} {
					for _, mt := range []bool{false, true} {
						jobs = append(jobs, job{Params{f, n, 0, 0, w, prf}, mt})
					}
				}
			}
		}
	}
	tmpl := nameTemplates()
	r.each(len(jobs)+len(tmpl), func(i int) int { return 1 }, func(i int) {
		if i < len(jobs) {
			r.nameTrip(base, jobs[i].pa, jobs[i].mt)
		} else {
			r.nameDenotes(base, tmpl[i-len(jobs)])
		}
	})
}

func (r *Rep) nameTrip(base *State, pa Params, mt bool) {
	name := fmt.Sprintf("%s n=%d w=%d %s mt=%v", [...]string{"SHA2", "SHAKE", "SHAKE256"}[pa.Func], pa.N, pa.W, [...]string{"RFC", "NIST"}[pa.Prf], mt)
	fix := map[string]int64{"Func": pa.Func, "N": pa.N, "WotsW": pa.W, "Prf": pa.Prf}
	if !mt {
		fix["D"] = 1
	}
	in := r.paramInterp()
	st := base.clone()
	pv, m := r.symParams(st, fix)
	h, d := m["FullHeight"].P, m["D"].P
	for _, c := range []*Term{bGE0(pSub(h, pOne)), bGE0(pSub(pConstI(63), h)), bGE0(pSub(d, pOne)), bGE0(pSub(pConstI(63), d))} {
		st.assume(c, true)
	}
	if mt {
		st.assume(bGE0(pSub(d, pConstI(2))), true)
	}
	trips := 0
	for _, o := range r.outcomes(in, st, "roundtrip", name, "Params.String", pv) {
		if _, ok := isStrTerm(o.Ret); !ok {
			r.undec("roundtrip", name, "", "the name is not known")
			continue
		}
		for _, o2 := range r.outcomes(in, o.St, "roundtrip", name, "ParamsFromName2", o.Ret) {
			t := o2.Ret.(Tuple)
			if e := errNil(o2.St, t[1]); e != 1 {
				r.viol("roundtrip", name, "", "the printed name %s is refused", showStr(o.Ret.(*Term)))
				continue
			}
			dd := r.paramsDiff(o2.St, t[0], pv)
			if dd == "" {
				trips++
			}
			r.check(dd == "", "roundtrip", name, "", "print and parse%s", pre(": ", dd))
		}
	}
	r.check(trips > 0, "roundtrip", name, "", "some name is printed and parsed")
	r.undecAll(in, "roundtrip", name)
}

func showStr(t *Term) string {
	s := ""
	for _, p := range strParts(t) {
		switch p.Op {
		case "str":
			s += p.Str
		case "satom":
			s += "‹" + strings.SplitN(p.Str, "\x00", 2)[1] + "›"
		default:
			s += "‹" + p.str(3) + "›"
		}
	}
	return s
}

// A name is a word, "-", and further words joined by "_", some of which
// contain "/".
type nameTmpl struct {
	alg   bool // whether there is a "-"
	words []int
	pre   string // first character of a word after the third that contains "/"
}

func nameTemplates() (r []nameTmpl) {
	r = append(r, nameTmpl{words: []int{0}}, nameTmpl{words: []int{0, 0, 0}})
	for n := 1; n <= 7; n++ {
		w := make([]int, n)
		r = append(r, nameTmpl{alg: true, words: w})
		for i := 0; i < n; i++ {
			for k := 1; k <= 2; k++ {
				v := append([]int{}, w...)
				v[i] = k
				pres := []string{""}
				if i > 2 {
					pres = []string{"", "w", "x"}
				}
				for _, p := range pres {
					r = append(r, nameTmpl{true, v, p})
					if i > 1 && k == 1 && n > 2 {
						v := append([]int{}, v...)
						v[1] = 1
						r = append(r, nameTmpl{true, v, p})
					}
				}
			}
		}
	}
	return
}

func (r *Rep) nameDenotes(base *State, tm nameTmpl) {
	const free = "-_/"
	var words []*Term
	for i, k := range tm.words {
		ps := []*Term{strAtom(fmt.Sprintf("p%d", i), free)}
		if i > 2 && k > 0 {
			if ps = []*Term{strC(tm.pre)}; tm.pre == "w" {
				ps = append(ps, strAtom(fmt.Sprintf("p%d", i), free))
			}
		}
		for j := 0; j < k; j++ {
			ps = append(ps, strC("/"), strAtom(fmt.Sprintf("p%d%c", i, 'b'+j), free))
		}
		words = append(words, strCat(ps))
	}
	var ps []*Term
	alg := strAtom("alg", free)
	if tm.alg {
		ps = append(ps, alg, strC("-"))
	}
	for i, w := range words {
		if i > 0 {
			ps = append(ps, strC("_"))
		}
		ps = append(ps, w)
	}
	nm := strCat(ps)
	name := showStr(nm)
	in := r.paramInterp()
	rows := specRegistry()
	n := 0
outs:
	for _, o := range r.outcomes(in, base.clone(), "denotes", name, "ParamsFromName2", nm) {
		n++
		st := o.St
		t := o.Ret.(Tuple)
		e := errNil(st, t[1])
		if e == -1 {
			if d := st.facts.decide(st.eqVal(t[0], NilV{})); d != 1 {
				r.viol("denotes", name, "", "parameters are returned together with an error")
			}
			r.ok("denotes", name, "refused")
			continue
		}
		if e == 0 {
			r.undec("denotes", name, "", "error is not known")
			continue
		}
		for _, row := range rows {
			if c := strEq(nm, strC(row.name)); c != nil && st.facts.decide(c) == 1 {
				d := r.paramsDiff(st, t[0], r.P.paramsVal(st, row.pa))
				r.check(d == "", "denotes", name, "", "%s%s", row.name, pre(": ", d))
				continue outs
			}
		}
		if bad := r.denotes(st, t[0], tm, alg, words); bad != "" {
			r.viol("denotes", name, "", "accepted, but %s; %s", bad, pcString(st))
		} else {
			r.ok("denotes", name, "accepted as what it spells out")
		}
	}
	r.check(n > 0, "denotes", name, "", "evaluated")
	r.undecAll(in, "denotes", name)
}

func (r *Rep) denotes(st *State, v Val, tm nameTmpl, alg *Term, words []*Term) string {
	a, ok := st.deref(v).(*Agg)
	if !ok {
		return "there are no parameters"
	}
	get := func(n string) *Poly {
		t, _ := a.get(st, pConstI(int64(fieldIdx(a.T, n)))).(*Term)
		if t == nil || t.P == nil {
			return pConstI(-1)
		}
		return t.P
	}
	if !tm.alg {
		return "it has no algorithm"
	}
	is := func(t *Term, s string) bool {
		c := strEq(t, strC(s))
		return c != nil && st.facts.decide(c) == 1
	}
	eqs := func(p, q *Poly) bool { return st.facts.decide(bEQ0(pSub(p, q))) == 1 }
	isNum := func(t *Term, p *Poly) bool {
		v, isn := strNum(st, t)
		return st.facts.decide(isn) == 1 && eqs(v.P, p)
	}
	mt := is(alg, "XMSSMT")
	if !mt && !is(alg, "XMSS") {
		return "it is neither XMSS nor XMSSMT"
	}
	if len(words) < 3 || len(words) > 5 {
		return fmt.Sprintf("it has %d parts", len(words))
	}
	f := -1
	for i, n := range []string{"SHA2", "SHAKE", "SHAKE256"} {
		if is(words[0], n) {
			f = i
		}
	}
	if f < 0 || !eqs(get("Func"), pConstI(int64(f))) {
		return "the hash function is not the named one"
	}
	hd, ok := strSplit(words[1], "/", -1)
	if !ok || len(hd) > 2 || (len(hd) == 2) != mt {
		return "heights and layers do not suit the kind"
	}
	if !isNum(hd[0], get("FullHeight")) {
		return "the height is not the named one"
	}
	if mt && !isNum(hd[1], get("D")) || !mt && !eqs(get("D"), pOne) {
		return "the number of layers is not the named one"
	}
	bits, isn := strNum(st, words[2])
	small := st.facts.decide(bGE0(bits.P)) == 1 && st.facts.decide(bGE0(pSub(pConst(pow2(32)), pAdd(bits.P, pOne)))) == 1
	low := eqs(tRem(mkInt(bits.P, 64, true), intT(8)).P, pZero) || eqs(pExt(bits.P, 0, 3), pZero)
	div := eqs(tDiv(mkInt(bits.P, 64, true), intT(8)).P, get("N")) || small && (eqs(pExt(bits.P, 3, 29), get("N")) || eqs(pExt(bits.P, 3, 61), get("N")))
	if st.facts.decide(isn) != 1 || !eqs(bits.P, pScale(get("N"), big.NewInt(8))) && !(low && div) {
		return "n is not the named one"
	}
	for f, w := range map[string]uint{"N": 32, "FullHeight": 32, "D": 32, "WotsW": 16} {
		p := get(f)
		if st.facts.decide(bGE0(p)) != 1 || st.facts.decide(bGE0(pSub(pConst(pow2(w)), pAdd(p, pOne)))) != 1 {
			return f + " may not fit its type"
		}
	}
	// the rest in any order, each at most once
	w, prf := -1, ""
	for i, x := range words[3:] {
		switch {
		case is(x, "NIST"), is(x, "RFC"):
			if prf != "" {
				return "the PRF is given twice"
			}
			prf = "RFC"
			if is(x, "NIST") {
				prf = "NIST"
			}
		default:
			if w >= 0 {
				return "w is given twice"
			}
			w = i + 3
			if x.Op != "satom" {
				return "it has an unknown part"
			}
			if c := pSub(strAt(x, 0).P, pConstI('w')); st.facts.decide(bEQ0(c)) != 1 {
				return "it has an unknown part"
			}
			num := mkTerm("ssub", "", 0, 0, 0, false, x, intT(1))
			if !isNum(num, get("WotsW")) {
				return "w is not the named one"
			}
		}
	}
	if w < 0 && !eqs(get("WotsW"), pConstI(16)) {
		return "w is not 16"
	}
	want := int64(0)
	if prf == "NIST" {
		want = 1
	}
	if prf == "" {
		switch st.facts.decide(bEQ0(pSub(get("N"), pConstI(24)))) {
		case 1:
			want = 1
		case 0:
			return "the PRF depends on an unknown n"
		}
	}
	if !eqs(get("Prf"), pConstI(want)) {
		return "the PRF is not the named one"
	}
	return ""
}

// ---- R03

func log2floor(n int64) int64 {
	k := int64(-1)
	for n > 0 {
		n >>= 1
		k++
	}
	return k
}

type sizes struct {
	lgw, len1, len2, wots, index, sig, pk, sk, bare, cached *big.Int
}

// Sizes from the formulas of the specifications.
func specSizes(pa Params) sizes {
	b := func(x int64) *big.Int { return big.NewInt(x) }
	lg := log2floor(pa.W)
	len1 := (8*pa.N + lg - 1) / lg
	len2 := log2floor(len1*(pa.W-1))/lg + 1
	wots := (len1 + len2) * pa.N
	idx := int64(4)
	if pa.D > 1 {
		idx = (pa.H + 7) / 8
	}
	th := pa.H / pa.D
	bare := new(big.Int).Mul(new(big.Int).Sub(pow2(uint(th+1)), bigOne), b(pa.N))
	return sizes{b(lg), b(len1), b(len2), b(wots), b(idx), b(idx + pa.N + pa.D*wots + pa.H*pa.N), b(2 * pa.N), b(idx + 4*pa.N), bare,
		new(big.Int).Add(bare, b(wots+8))}
}

func runR03(r *Rep) {
	r.rule("accept", "exactly the supported parameters are accepted", 500)
	r.rule("sizes", "the sizes derived from accepted parameters are the specified ones", 500)
	r.rule("oidctx", "a context has the parameters it was asked for", 200)
	base := r.initState()
	r.P.setX4(base, false)
	const top = 64
	r.each(top+2, func(i int) int { return 1 }, func(i int) {
		if i <= top {
			for d := int64(0); d <= top; d++ {
				r.accept(base, int64(i), d)
			}
			return
		}
		// larger heights, numbers of layers
		for _, big := range []string{"FullHeight", "D"} {
			in := r.paramInterp()
			st := base.clone()
			pv, m := r.symParams(st, nil)
			st.assume(bGE0(pSub(m[big].P, pConstI(top))), true)
			for _, o := range r.outcomes(in, st, "accept", big, "NewContext", pv) {
				t := o.Ret.(Tuple)
				r.check(errNil(o.St, t[1]) == -1 && o.St.facts.decide(o.St.eqVal(t[0], NilV{})) == 1, "accept", big+" too large", "", "refused")
			}
			r.undecAll(in, "accept", big)
		}
	})
}

func (r *Rep) accept(base *State, h, d int64) {
	name := fmt.Sprintf("h=%d d=%d", h, d)
	in := r.paramInterp()
	st := base.clone()
	pv, m := r.symParams(st, map[string]int64{"FullHeight": h, "D": d})
	type key struct{ f, n, w, p int64 }
	got := map[key]bool{}
	for _, o := range r.outcomes(in, st, "accept", name, "NewContext", pv) {
		t := o.Ret.(Tuple)
		st := o.St
		switch errNil(st, t[1]) {
		case -1:
			if st.facts.decide(st.eqVal(t[0], NilV{})) != 1 {
				r.viol("accept", name, "", "a context is returned together with an error; %s", pcString(st))
			}
			continue
		case 0:
			r.undec("accept", name, "", "error is not known")
			continue
		}
		k := key{st.intOf(m["Func"]), st.intOf(m["N"]), st.intOf(m["WotsW"]), st.intOf(m["Prf"])}
		pa := Params{k.f, k.n, h, d, k.w, k.p}
		if !soundParams(pa) {
			r.viol("accept", name, "", "unsupported parameters are accepted: %s", pcString(st))
			continue
		}
		got[k] = true
		r.ok("accept", name, "accepted only if supported")
		r.ctxSizes(in, st, name, t[0], pa)
	}
	for f := int64(0); f < 3; f++ {
		for _, n := range []int64{16, 24, 32, 64} {
			for _, w := range []int64{4, 16, 256} {
				for p := int64(0); p < 2; p++ {
					if soundParams(Params{f, n, h, d, w, p}) && !got[key{f, n, w, p}] {
						r.viol("accept", name, "", "supported parameters may be refused: %v", Params{f, n, h, d, w, p})
					}
				}
			}
		}
	}
	r.ok("accept", name, "all supported parameters are accepted")
	r.undecAll(in, "accept", name)
}

// The parameters the library can compute with: everything the specifications
// build on, as long as a subtree and offsets into it fit 32 bits.
func soundParams(pa Params) bool {
	if pa.Func < 0 || pa.Func > 2 || pa.Prf < 0 || pa.Prf > 1 {
		return false
	}
	if pa.N != 16 && pa.N != 24 && pa.N != 32 && pa.N != 64 || pa.W != 4 && pa.W != 16 && pa.W != 256 {
		return false
	}
	if pa.H < 1 || pa.H > 63 || pa.D < 1 || pa.H%pa.D != 0 {
		return false
	}
	th := pa.H / pa.D
	return th <= 30 && pa.N<<uint(th+1) <= 1<<32
}

func (r *Rep) ctxSizes(in *Interp, st *State, name string, ctx Val, pa Params) {
	c := pa.String()
	sz := specSizes(pa)
	p, ok := ctx.(*Ptr)
	if !ok {
		r.viol("sizes", c, "", "no context")
		return
	}
	d := r.paramsDiff(st, r.ctxParams(st, ctx), r.P.paramsVal(st, pa))
	r.check(d == "", "oidctx", name, "", "parameters of the context%s", pre(": ", d))
	bad := ""
	val := func(what string, v Val, w *big.Int) {
		t, ok := v.(*Term)
		if !ok || t.P == nil || st.facts.norm(t.P) != pConst(w) {
			bad += fmt.Sprintf(" %s is %s instead of %v;", what, showT(st, v), w)
		}
	}
	call := func(fn string, w *big.Int, args ...Val) {
		os := in.Exec(st.clone(), nil, r.P.needFn(fn), args, nil, nil)
		if len(os) != 1 || os[0].Panic {
			bad += fmt.Sprintf(" %s has %d outcomes;", fn, len(os))
			return
		}
		val(fn, os[0].Ret, w)
	}
	call("Context.SignatureSize", sz.sig, ctx)
	cv := st.load(p).(*Agg)
	for f, w := range map[string]*big.Int{"wotsLogW": sz.lgw, "wotsLen1": sz.len1, "wotsLen2": sz.len2, "wotsLen": new(big.Int).Add(sz.len1, sz.len2),
		"wotsSigBytes": sz.wots, "treeHeight": big.NewInt(pa.H / pa.D), "indexBytes": sz.index, "sigBytes": sz.sig, "pkBytes": sz.pk, "skBytes": sz.sk,
		"prefixLen": big.NewInt(int64(newSpec(pa).pl))} {
		if i := fieldIdx(cv.T, f); i >= 0 {
			val(f, cv.get(st, pConstI(int64(i))), w)
		}
	}
	st = st.clone()
	o := newObj("params", r.P.namedType("Params"))
	st.heap[o] = r.P.paramsVal(st, pa)
	pp := &Ptr{Obj: o}
	call("Params.MaxSignatureSeqNo", new(big.Int).Sub(pow2(uint(pa.H)), bigOne), pp)
	call("Params.PrivateKeySize", big.NewInt(3*pa.N), pp)
	call("Params.WotsSignatureSize", sz.wots, pp)
	call("Params.WotsLen", new(big.Int).Add(sz.len1, sz.len2), pp)
	call("Params.WotsLen1", sz.len1, pp)
	call("Params.WotsLen2", sz.len2, pp)
	call("Params.WotsLogW", sz.lgw, pp)
	call("Params.BareSubTreeSize", sz.bare, pp)
	call("Params.CachedSubTreeSize", sz.cached, pp)
	r.check(bad == "", "sizes", c, "", "derived sizes%s", pre(":", bad))
}

// ---- E01

func runE01(r *Rep) {
	r.rule("encode", "parameters that are encoded are decoded to themselves, all others are refused", 9)
	r.rule("decode", "bytes that are decoded are the encoding of what they decode to, all others are refused", 3)
	r.rule("length", "encodings have four bytes", 2)
	r.rule("supported", "all supported parameters can be encoded", 2)
	base := r.initState()
	r.P.setX4(base, false)
	r.paramsEncode(base, true)
	r.paramsEncode(base, false)
	r.encodable(base)
	r.paramsDecode(base)
}

func notOneOf(st *State, p *Poly, vs ...int64) bool {
	for _, v := range vs {
		if st.facts.decide(bEQ0(pSub(p, pConstI(v)))) != -1 {
			return false
		}
	}
	return true
}

func (r *Rep) alloc(st *State, name string, t types.Type) *Ptr {
	o := newObj(name, t)
	st.heap[o] = zeroVal(t)
	return &Ptr{Obj: o}
}

// Parameters are arbitrary (general), or representable.
func (r *Rep) paramsEncode(base *State, general bool) {
	in := r.paramInterp()
	st := base.clone()
	pv, m := r.symParams(st, nil)
	if !general {
		n := &Agg{T: pv.T, N: pv.N}
		for i := 0; i < pv.N; i++ {
			n.el.set(i, pv.get(st, pConstI(int64(i))))
		}
		for f, w := range map[string]uint{"Func": 2, "N": 4, "FullHeight": 6, "D": 6} {
			p := symInt(f+"'", w, false).P
			if f == "N" {
				p = pScale(pAdd(p, pOne), big.NewInt(8))
			}
			m[f] = mkInt(p, m[f].W, false)
			n.el.set(fieldIdx(pv.T, f), m[f])
		}
		freeze(n)
		pv = n
	}
	o := newObj("params", pv.T)
	st.heap[o] = pv
	encoded := 0
	for _, o := range r.outcomes(in, st, "encode", "MarshalBinary", "Params.MarshalBinary", &Ptr{Obj: o}) {
		t := o.Ret.(Tuple)
		st := o.St
		switch errNil(st, t[1]) {
		case -1:
			if !general {
				// a code for the hash function that is not assigned
				r.check(st.facts.decide(bGE0(pSub(m["Func"].P, pConstI(3)))) == 1 || st.intOf(m["Func"]) == 3 ||
					notOneOf(st, m["WotsW"].P, 4, 16, 256) || notOneOf(st, m["Prf"].P, 0, 1), "encode", "MarshalBinary", "", "refuses only what cannot be represented")
			}
			continue
		case 0:
			r.undec("encode", "MarshalBinary", "", "error is not known")
			continue
		}
		s := asSlice(t[0])
		if s == nil || st.intOf(s.Len) != 4 {
			r.viol("length", "MarshalBinary", "", "the encoding does not have 4 bytes")
			continue
		}
		r.ok("length", "MarshalBinary", "4 bytes")
		encoded++
		name := fmt.Sprintf("w=%s prf=%s", showT(st, m["WotsW"]), showT(st, m["Prf"]))
		if general {
			// only parameters which are representable
			is := func(c *Term) bool { return st.facts.decide(c) == 1 }
			max := func(n string, k int64) bool { return is(bGE0(pSub(pConstI(k), m[n].P))) }
			r.check(max("Func", 2), "encode", name, "", "hash function is representable")
			r.check(max("N", 128) && is(bGE0(pSub(m["N"].P, pOne))) && is(bEQ0(pExt(m["N"].P, 0, 3))), "encode", name, "", "n is representable")
			r.check(max("FullHeight", 63), "encode", name, "", "height is representable")
			r.check(max("D", 63), "encode", name, "", "number of layers is representable")
			w, p := st.intOf(m["WotsW"]), st.intOf(m["Prf"])
			r.check((w == 4 || w == 16 || w == 256) && (p == 0 || p == 1), "encode", name, "", "w and PRF are representable")
			continue
		}
		q := r.alloc(st, "decoded", pv.T)
		for _, o2 := range r.outcomes(in, st.clone(), "encode", "UnmarshalBinary", "Params.UnmarshalBinary", q, s) {
			if e := errNil(o2.St, o2.Ret); e != 1 {
				r.viol("encode", name, "", "the encoding is refused; %s", pcString(o2.St))
				continue
			}
			d := r.paramsDiff(o2.St, q, pv)
			r.check(d == "", "encode", name, "", "decoding the encoding%s", pre(": ", d))
		}
		// writing into a larger buffer writes the same bytes and no others
		st2 := st.clone()
		buf := symBytes(st2, "buf", 9)
		before := st2.bytesOf(buf)
		for _, o3 := range r.outcomes(in, st2, "encode", "WriteInto", "Params.WriteInto", &Ptr{Obj: o0(st2, pv)}, subSlice(buf, 2, 7)) {
			if errNil(o3.St, o3.Ret) != 1 {
				r.viol("encode", "WriteInto", "", "refuses parameters MarshalBinary accepts")
				continue
			}
			want := append(append(append([]*Term{}, before[:2]...), o3.St.bytesOf(s)...), before[6:]...)
			r.cmp("encode", "WriteInto", "same bytes as MarshalBinary", o3.St.bytesOf(buf), want)
		}
	}
	r.check(encoded > 0, "encode", "MarshalBinary", "", "some parameters are encoded")
	r.undecAll(in, "encode", "MarshalBinary")
}

func o0(st *State, pv *Agg) *Obj {
	o := newObj("params2", pv.T)
	st.heap[o] = pv
	return o
}

// All supported parameters can be encoded.
func (r *Rep) encodable(base *State) {
	for _, pa := range supportedTuples() {
		in := r.paramInterp()
		st := base.clone()
		pv, m := r.symParams(st, map[string]int64{"Func": pa.Func, "N": pa.N, "WotsW": pa.W, "Prf": pa.Prf})
		for _, f := range []string{"FullHeight", "D"} {
			st.assume(bGE0(pSub(m[f].P, pOne)), true)
			st.assume(bGE0(pSub(pConstI(63), m[f].P)), true)
		}
		name := fmt.Sprintf("%s n=%d w=%d %s", [...]string{"SHA2", "SHAKE", "SHAKE256"}[pa.Func], pa.N, pa.W, [...]string{"RFC", "NIST"}[pa.Prf])
		os := r.outcomes(in, st, "supported", name, "Params.MarshalBinary", &Ptr{Obj: o0(st, pv)})
		good := len(os) > 0
		for _, o := range os {
			good = good && errNil(o.St, o.Ret.(Tuple)[1]) == 1
		}
		r.check(good, "supported", name, "", "can be encoded")
		r.undecAll(in, "supported", name)
	}
}

func supportedTuples() (ts []Params) {
	for _, w := range []int64{4, 16, 256} {
		ts = append(ts, tuples(w, 0, 0)...)
	}
	return
}

func (r *Rep) paramsDecode(base *State) {
	in := r.paramInterp()
	st := base.clone()
	// any length
	buf := r.symBuf(st, "buf", 1<<33)
	q := r.alloc(st, "decoded", r.P.namedType("Params"))
	for _, o := range r.outcomes(in, st, "length", "UnmarshalBinary", "Params.UnmarshalBinary", q, buf) {
		switch errNil(o.St, o.Ret) {
		case -1:
			continue
		case 0:
			r.undec("length", "UnmarshalBinary", "", "error is not known")
			continue
		}
		if n, ok := o.St.facts.norm(buf.Len.P).constI(); !ok || n != 4 {
			r.viol("length", "UnmarshalBinary", "", "bytes of another length than 4 are decoded: %s", pcString(o.St))
			continue
		}
		r.ok("length", "UnmarshalBinary", "4 bytes")
	}
	// four bytes, made of the fields
	st = base.clone()
	buf = symBytes(st, "buf", 4)
	val := pZero
	for _, f := range []struct {
		n string
		w uint
	}{{"magic", 8}, {"version", 3}, {"prf", 1}, {"n", 4}, {"hash", 2}, {"w", 2}, {"h", 6}, {"d", 6}} {
		val = pAdd(pScale(val, pow2(f.w)), symInt(f.n, f.w, false).P)
	}
	bs := make([]*Term, 4)
	for i := range bs {
		bs[i] = mkInt(pExt(val, 8*(3-i), 8), 8, false)
	}
	st.putBytes(buf, 0, bs)
	// it held other parameters before
	q = r.alloc(st, "decoded", r.P.namedType("Params"))
	st.store(q, symVal(r.P.namedType("Params"), mkTerm("sym", "before", 0, 0, 0, false)))
	decoded := 0
	for _, o := range r.outcomes(in, st, "decode", "UnmarshalBinary", "Params.UnmarshalBinary", q, buf) {
		st := o.St
		switch errNil(st, o.Ret) {
		case -1:
			continue
		case 0:
			r.undec("decode", "UnmarshalBinary", "", "error is not known")
			continue
		}
		decoded++
		for _, o2 := range r.outcomes(in, st, "decode", "MarshalBinary", "Params.MarshalBinary", q) {
			t := o2.Ret.(Tuple)
			name := "decoded " + pcString(st)
			if errNil(o2.St, t[1]) != 1 {
				r.viol("decode", name, "", "what is decoded is refused by the encoder: %s", pcString(o2.St))
				continue
			}
			s := asSlice(t[0])
			if s == nil || o2.St.intOf(s.Len) != 4 {
				r.viol("decode", name, "", "the encoding does not have 4 bytes")
				continue
			}
			got := o2.St.bytesOf(s)
			for i := range got {
				if o2.St.facts.decide(bEQ0(pSub(got[i].P, bs[i].P))) != 1 {
					r.viol("decode", name, "", "byte %d is %v instead of %v", i, showT(o2.St, got[i]), showT(o2.St, bs[i]))
				} else {
					r.ok("decode", name, "byte %d", i)
				}
			}
		}
	}
	r.check(decoded > 0, "decode", "UnmarshalBinary", "", "some bytes are decoded")
	r.undecAll(in, "decode", "UnmarshalBinary")
}

// byte slice of symbolic length up to max
func (r *Rep) symBuf(st *State, name string, max int64) *Slice {
	s := symBytes(st, name, max)
	s.Len = symRange(name+".len", 64, true, 0, max)
	s.Cap = s.Len
	return s
}
