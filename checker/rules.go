package main

// The rules: what each property requires of the program, stated on the results
// of the analysis. A scenario analyses exported entry points on unknown
// inputs and compares what they yield, store, emit and require with the rule.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type finding struct {
	Rule, Construct, Detail, Pos string
}

type ctx struct {
	id     string
	p      *program
	nOb    int
	rules  map[string]int
	bad    []finding
	fns    map[string]bool
	sites  int
	calls  int
	loops  int
	joins  int
	terms  int
	scen   []string
	notes  []string
	expect map[string]int

	trial     *ssa.Function // what decrypts with a state, see trials.go
	trialNote string
	known     map[string]string
	hit       map[string]bool

	quiet  bool                                             // obligations are those of another property
	after  func(s *scn)                                     // at the end of each scenario
	called func(s *scn, f *ssa.Function, from int, r *Term) // after each call of an operation
}

// scn is one scenario: a fresh analysis.
type scn struct {
	*ctx
	name  string
	in    *interp
	st    *state
	n     int
	e0    int
	o0    int
	where string
	pos   token.Pos
}

func (c *ctx) ob(rule, construct string, pos token.Pos, ok bool, detail func() string) bool {
	if c.quiet {
		return true
	}
	c.nOb++
	c.rules[rule]++
	if ok {
		return true
	}
	ps := ""
	if pos.IsValid() {
		q := c.p.prog.Fset.Position(pos)
		ps = fmt.Sprintf("%s:%d", relFile(q.Filename), q.Line)
	}
	d := ""
	if detail != nil {
		d = detail()
	}
	c.bad = append(c.bad, finding{rule, construct, d, ps})
	return false
}

func relFile(f string) string {
	if r, err := filepath.Rel(repoDir(), f); err == nil {
		return r
	}
	return f
}

// scenario runs one analysis; anything it cannot decide is a violation.
func (c *ctx) scenario(name string, f func(s *scn)) {
	name += c.trialNote
	initTerms()
	amb = nil
	bases, baseByKey = nil, map[string]*base{}
	forcedCache = map[int]map[*Term]bool{}
	atomCache = map[[2]int]int8{}
	encTypes = map[string]types.Type{}
	seqInfos = map[string]seqInfo{}
	fnBounds = map[string][2]*bigInt{}
	fnLens = map[string]func(*Term) *Term{"cbcenc": cbcLen, "cbcdec": cbcLen}
	s := &scn{ctx: c, name: name}
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_STACK") != "" {
				fmt.Println(r)
				debug.PrintStack()
			}
			w := ""
			if s.in != nil {
				w = s.in.where()
			}
			c.bad = append(c.bad, finding{"decided", name, fmt.Sprintf("the analysis could not decide: %v (in %s; last call %s)", r, w, s.where), ""})
			c.nOb++
			c.rules["decided"]++
		}
		if s.in != nil {
			for fn := range s.in.seen {
				c.fns[relName(fn)] = true
			}
			c.calls += s.in.stats.calls
			c.loops += s.in.stats.loops
			c.joins += s.in.stats.joins
			c.terms += len(allTerms)
		}
	}()
	s.in = newInterp(c.p)
	setPolicy(c.p)
	s.in.initGlobals()
	s.st = &state{g: tTrue, h: s.in.globals.clone()}
	amb = tTrue
	s.e0, s.o0 = 0, 0
	c.scen = append(c.scen, name)
	t0 := time.Now()
	f(s)
	if c.after != nil {
		c.after(s)
	}
	if os.Getenv("VERIF_TIME") != "" {
		fmt.Fprintf(os.Stderr, "%-50s %8v %d terms\n", name, time.Since(t0).Round(time.Millisecond), len(allTerms))
	}
}

// fn is an exported function or method of the library.
func (s *scn) fn(name string) *ssa.Function { return s.p.fnNamed(name) }

// input is an unknown value of a type of the library.
func (s *scn) input(name, typ string) *Term {
	ptrs := 0
	for strings.HasPrefix(typ, "*") {
		typ, ptrs = typ[1:], ptrs+1
	}
	var t types.Type
	switch typ {
	case "[]byte":
		t = types.NewSlice(types.Typ[types.Byte])
	case "[32]byte":
		t = types.NewArray(types.Typ[types.Byte], 32)
	case "[64]byte":
		t = types.NewArray(types.Typ[types.Byte], 64)
	case "uint32":
		t = types.Typ[types.Uint32]
	case "int":
		t = types.Typ[types.Int]
	case "byte":
		t = types.Typ[types.Byte]
	case "string":
		t = types.Typ[types.String]
	default:
		t = s.p.typeNamed(typ)
	}
	for ; ptrs > 0; ptrs-- {
		t = types.NewPointer(t)
	}
	return inputValue(name, t, nil, false, false)
}

// arg is an unknown value for a parameter of an entry point.
func (s *scn) args(fn string, names ...string) []*Term {
	f := s.fn(fn)
	var r []*Term
	for i, p := range f.Params {
		n := p.Name()
		if i < len(names) {
			n = names[i]
		}
		r = append(r, inputValue(n, p.Type(), nil, false, false))
	}
	return r
}

func (s *scn) resetAmb() { amb = s.st.g }

// call analyses an entry point in the current state.
func (s *scn) call(name string, args ...*Term) *Term {
	return s.callFn(s.fn(name), name, args...)
}

func (s *scn) callFn(f *ssa.Function, name string, args ...*Term) *Term {
	if len(args) != len(f.Params) {
		panic(undecided(fmt.Sprintf("%s takes %d values, not %d", name, len(f.Params), len(args))))
	}
	s.n++
	s.where, s.pos = name, f.Pos()
	// a value given where an interface is wanted
	for i, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Interface); ok && args[i].op == OPtr && bases[args[i].k].typ != nil {
			args[i] = mk(&Term{op: OIface, typ: types.NewPointer(bases[args[i].k].typ), args: []*Term{args[i]}})
		}
	}
	from := len(s.in.events)
	s.in.failures = s.called != nil
	r := s.in.callFn(s.st, f, args, nil, fmt.Sprintf("r%d", s.n))
	s.resetAmb()
	r = simp(r, s.st.g)
	if s.called != nil {
		s.called(s, f, from, r)
	}
	return r
}

// method calls a method of whatever a value is.
func (s *scn) method(v *Term, m string, args ...*Term) *Term {
	v = simp(v, s.st.g)
	if v.op == OIte {
		a := asBDD(v.args[0])
		s1, s2 := s.st.fork(and(s.st.g, a)), s.st.fork(and(s.st.g, not(a)))
		old := s.st
		s.st = s1
		s.resetAmb()
		r1 := s.method(v.args[1], m, args...)
		s.st = s2
		s.resetAmb()
		r2 := s.method(v.args[2], m, args...)
		g := or(s1.g, s2.g)
		if g == tFalse {
			s.st = old
			s.st.g = g
			return tNil
		}
		c := simp(s1.g, g)
		old.g, old.h = g, mergeHeap(c, s1.h, s2.h)
		s.st = old
		s.resetAmb()
		return ite(c, r1, r2)
	}
	var t types.Type
	switch v.op {
	case OIface:
		t = v.typ
		v = v.args[0]
	case OPtr:
		t = types.NewPointer(bases[v.k].typ)
	case OStruct:
		t = v.typ
	default:
		panic(undecided("method " + m + " of " + str(v)))
	}
	var pk *types.Package
	if n, ok := derefT(t).(*types.Named); ok {
		pk = n.Obj().Pkg()
	}
	f := s.p.prog.LookupMethod(t, pk, m)
	if f == nil {
		panic(undecided("no method " + m + " on " + t.String()))
	}
	s.n++
	s.where, s.pos = relName(f), f.Pos()
	r := s.in.callFn(s.st, f, append([]*Term{v}, args...), nil, fmt.Sprintf("r%d", s.n))
	s.resetAmb()
	return simp(r, s.st.g)
}

// box puts a structure into an object of its own.
func (s *scn) box(v *Term) *Term {
	s.n++
	return s.in.newObj(s.st, fmt.Sprintf("box%d", s.n), v.typ, v)
}

func derefT(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// assume restricts what follows to the cases in which a condition holds.
func (s *scn) assume(c *Term) {
	s.st.g = and(s.st.g, simp(asBoolT(c), s.st.g))
	s.resetAmb()
}

// at evaluates f on a copy of the state in which a condition holds.
func (s *scn) at(c *Term, f func()) {
	old := s.st
	s.st = old.fork(old.g)
	s.assume(c)
	f()
	s.st = old
	s.resetAmb()
}

// peek evaluates f on a copy of the state.
func (s *scn) peek(f func()) { s.at(tTrue, f) }

func (s *scn) bytes(v *Term) *Term {
	return simp(lift(func(x []*Term) *Term {
		if isSeq(x[0]) {
			return x[0]
		}
		return sliceSeq(s.st.h, x[0])
	}, simp(v, s.st.g)), s.st.g)
}

func (s *scn) deep(v *Term) *Term { return simp(deep(s.st.h, simp(v, s.st.g)), s.st.g) }

// res is a component of a tuple.
func res(v *Term, i int) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].op != OTuple {
			panic(undecided("not a tuple: " + str(x[0])))
		}
		return x[0].args[i]
	}, v)
}

func lastRes(v *Term) *Term {
	if v.op == OTuple {
		return v.args[len(v.args)-1]
	}
	return v
}

// okOf is success of a call with an error result.
func okOf(v *Term) *Term { return isNil(lastRes(v)) }

func (s *scn) name2(construct string) string { return s.name + ": " + construct }

func (s *scn) is(g, c *Term) bool {
	amb = g
	rest := simp(asBoolT(c), g)
	r := rest == tTrue
	if !r && rest != tFalse {
		n := 300
		r = impossible(and(g, not(rest)), &n)
	}
	amb = s.st.g
	return r
}

// holds requires a condition in the current state.
func (s *scn) holds(rule, construct string, c *Term) bool {
	if s.st.g == tFalse {
		return s.ob(rule, s.name2(construct), s.pos, false, func() string { return "never reached" })
	}
	return s.ob(rule, s.name2(construct), s.pos, s.is(s.st.g, c), func() string {
		return "not implied: " + dag(simp(asBoolT(c), s.st.g), 600) + " after " + s.where
	})
}

// reach requires that the state can be reached at all.
func (s *scn) reach(rule, construct string) bool {
	return s.ob(rule, s.name2(construct), s.pos, s.st.g != tFalse, func() string { return "never reached after " + s.where })
}

// eq requires two values to be the same in the current state.
func (s *scn) eq(rule, construct string, got, want *Term) bool {
	if s.st.g == tFalse {
		return s.ob(rule, s.name2(construct), s.pos, false, func() string { return "never reached" })
	}
	amb = s.st.g
	got, want = simp(got, s.st.g), simp(want, s.st.g)
	ok := got == want || simp(asBoolT(tEq(got, want)), s.st.g) == tTrue
	if !ok {
		amb = s.st.g
		got, want = simpDeep(got, s.st.g), simpDeep(want, s.st.g)
		ok = got == want || equalUnder(got, want, s.st.g)
	}
	amb = s.st.g
	return s.ob(rule, s.name2(construct), s.pos, ok, func() string {
		return differences(got, want) + " (" + s.where + "); got " + dag(got, 500) + " want " + dag(want, 500)
	})
}

// differences tells where two terms of the same shape part.
func differences(got, want *Term) string {
	var out []string
	seen := map[[2]*Term]bool{}
	var f func(a, b *Term)
	f = func(a, b *Term) {
		if a == b || len(out) >= 2 || seen[[2]*Term{a, b}] {
			return
		}
		seen[[2]*Term{a, b}] = true
		same := a.op == b.op && a.name == b.name && len(a.args) == len(b.args) && len(a.args) > 0 && a.op != OLin
		if same && (a.op == OStruct || a.op == OObj || a.op == OFn || a.op == OGen || a.op == OCat || a.op == OIface || a.op == OIte && a.args[0] == b.args[0]) {
			for i := range a.args {
				f(a.args[i], b.args[i])
			}
			return
		}
		out = append(out, dag(a, 250)+" instead of "+dag(b, 250))
	}
	f(got, want)
	return strings.Join(out, "; and ")
}

// iff requires a condition to be the same as another.
func (s *scn) iff(rule, construct string, got, want *Term) bool {
	if s.st.g == tFalse {
		return s.ob(rule, s.name2(construct), s.pos, false, func() string { return "never reached" })
	}
	got, want = simp(asBoolT(got), s.st.g), simp(asBoolT(want), s.st.g)
	ok := got == want
	if !ok {
		a := s.is(and(s.st.g, got), want)
		ok = a && s.is(and(s.st.g, not(got)), not(want))
	}
	return s.ob(rule, s.name2(construct), s.pos, ok, func() string {
		return "got " + dag(got, 700) + " want " + dag(want, 700) + " (" + s.where + ")"
	})
}

// mark is a point in the trace of events.
func (s *scn) mark() int { return len(s.in.events) }

// events gives the events since a mark whose name has a suffix, and that can
// happen in the current state.
func (s *scn) events(from int, suffix ...string) []event {
	var r []event
	for _, e := range s.in.events[from:] {
		for _, x := range suffix {
			if strings.HasSuffix(e.name, x) && simp(e.g, s.st.g) != tFalse {
				r = append(r, e)
			}
		}
	}
	return r
}

func strDet(x interface{}) string {
	if t, ok := x.(*Term); ok {
		return dag(t, 400)
	}
	return fmt.Sprint(x)
}

// ---------- running a check ----------

type rule struct {
	level string
	run   func(c *ctx)
	min   int // obligations confirmed by hand on the pinned tree
	note  string
	assum []string
}

var checks = map[string]*rule{}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

func runCheck(id string) (code int) {
	r := checks[id]
	if r == nil {
		fmt.Println("no such check:", id)
		return 2
	}
	t0 := time.Now()
	c := &ctx{id: id, rules: map[string]int{}, fns: map[string]bool{}, expect: map[string]int{}, hit: map[string]bool{}}
	c.known = readKnown(id)
	func() {
		defer func() {
			if x := recover(); x != nil {
				c.bad = append(c.bad, finding{"decided", "load", fmt.Sprint(x), ""})
			}
		}()
		initTerms()
		baseByKey = map[string]*base{}
		c.p = loadProgram()
		r.run(c)
	}()
	if len(c.bad) == 0 && c.nOb < r.min {
		c.bad = append(c.bad, finding{"coverage", id, fmt.Sprintf("only %d obligations were found, %d expected", c.nOb, r.min), ""})
	}
	var viol []finding
	for _, f := range c.bad {
		k := f.Rule + "|" + f.Construct
		if txt, ok := c.known[k]; ok {
			if !c.hit[k] {
				c.hit[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, txt)
			}
			continue
		}
		viol = append(viol, f)
	}
	writeEvidence(c, r, viol, time.Since(t0))
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d scenarios=%d\n", id, c.nOb, len(c.fns), len(c.scen))
		return 0
	}
	path := filepath.Join(verifDir(), "evidence", id+".violation.txt")
	var sb strings.Builder
	for i, f := range viol {
		ps := f.Pos
		if ps == "" {
			ps = "?"
		}
		fmt.Fprintf(&sb, "%d. rule %s at %s (%s)\n   %s\n", i+1, f.Rule, f.Construct, ps, f.Detail)
		if i < 5 {
			fmt.Printf("  rule %s violated at %s (%s): %.900s\n", f.Rule, f.Construct, ps, f.Detail)
		}
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return 1
}

func readKnown(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		pre := "open: property=" + id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		l = l[len(pre):]
		// key is quoted
		if k, err := strconv.QuotedPrefix(l); err == nil {
			q, _ := strconv.Unquote(k)
			r[q] = strings.TrimSpace(l[len(k):])
		}
	}
	return r
}

func writeEvidence(c *ctx, r *rule, viol []finding, wall time.Duration) {
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]interface{}{
		"explanation":        r.note,
		"obligations":        c.nOb,
		"discharged":         c.nOb - len(c.bad),
		"rules":              c.rules,
		"scenarios":          c.scen,
		"functions_analysed": fns,
		"calls_analysed":     c.calls,
		"loops_summarised":   c.loops,
		"joins":              c.joins,
		"values":             c.terms,
		"sites":              c.sites,
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": r.level, "coverage": cov,
		"assumptions": r.assum, "wall_s": wall.Seconds(), "violations": len(viol),
	}
	if r.assum == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, c.id+".json"), append(b, '\n'), 0o644)
}
