package main

// C35: no branch, index or early-ending comparison depends on a secret.
//
// A taint analysis over the SSA form, once per function and combination of
// tainted parameters: a value is tainted when it is computed from a secret,
// and an object when something tainted may be stored in it. References
// themselves, lengths, counts and errors are not secret.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tsum struct {
	ret  []bool // results, by value or content
	out  []bool // contents of parameters after the call
	free []bool
}

type timing struct {
	c       *ctx
	macs    bool // the secrets are MACs, and structures do not carry them
	randoms bool // random bytes are secret
	memo    map[string]*tsum
	sinks   map[string]token.Pos
	looked  map[string]bool // conditions and indices that depend on nothing secret
	fns     map[string]bool
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func plainResult(t types.Type) bool {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Info()&types.IsBoolean != 0 || b.Kind() == types.Int)
}

// leaky functions end early at the first difference.
var leaky = map[string]bool{"bytes.Equal": true, "bytes.Compare": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Index": true,
	"bytes.Contains": true, "bytes.EqualFold": true, "reflect.DeepEqual": true, "strings.EqualFold": true, "strings.Compare": true, "strings.HasPrefix": true,
	"strings.Contains": true, "strings.Index": true, "slices.Equal": true, "slices.Compare": true}

type tframe struct {
	f    *ssa.Function
	val  map[ssa.Value]bool
	mem  map[ssa.Value]bool
	mac  map[ssa.Value]bool
	sum  *tsum
	work bool
}

func (x *timing) analyse(f *ssa.Function, params, free []bool, depth int) *tsum {
	key := f.String() + fmt.Sprint(params, free, f.Pos())
	if s, ok := x.memo[key]; ok {
		return s
	}
	s := &tsum{ret: make([]bool, f.Signature.Results().Len()), out: append([]bool(nil), params...), free: append([]bool(nil), free...)}
	x.memo[key] = s
	if depth > 40 {
		return s
	}
	x.fns[relName(f)] = true
	fr := &tframe{f: f, val: map[ssa.Value]bool{}, mem: map[ssa.Value]bool{}, mac: map[ssa.Value]bool{}, sum: s}
	for i, p := range f.Params {
		if i < len(params) && params[i] {
			fr.mark(p)
		}
	}
	for i, p := range f.FreeVars {
		if i < len(free) && free[i] {
			fr.mark(p)
		}
	}
	for fr.work = true; fr.work; {
		fr.work = false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				x.instr(fr, i, depth)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			x.sink(fr, i)
		}
	}
	for i, p := range f.Params {
		if refType(p.Type()) && fr.mem[p] {
			s.out[i] = true
		}
	}
	for i, p := range f.FreeVars {
		if fr.mem[p] && i < len(s.free) {
			s.free[i] = true
		}
	}
	return s
}

// mark taints a value, or the content of a reference.
func (fr *tframe) mark(v ssa.Value) {
	if refType(v.Type()) {
		for _, o := range fr.origins(v, 0) {
			if !fr.mem[o] {
				fr.mem[o] = true
				fr.work = true
			}
		}
		return
	}
	if !fr.val[v] {
		fr.val[v] = true
		fr.work = true
	}
}

func (fr *tframe) has(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	if refType(v.Type()) {
		for _, o := range fr.origins(v, 0) {
			if fr.mem[o] {
				return true
			}
		}
		return false
	}
	return fr.val[v]
}

// origins are the objects a reference may lead into.
func (fr *tframe) origins(v ssa.Value, depth int) []ssa.Value {
	if depth > 12 {
		return []ssa.Value{v}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fr.origins(x.X, depth+1)
	case *ssa.IndexAddr:
		return fr.origins(x.X, depth+1)
	case *ssa.Slice:
		return fr.origins(x.X, depth+1)
	case *ssa.ChangeType:
		return fr.origins(x.X, depth+1)
	case *ssa.ChangeInterface:
		return fr.origins(x.X, depth+1)
	case *ssa.MakeInterface:
		if refType(x.X.Type()) {
			return fr.origins(x.X, depth+1)
		}
	case *ssa.SliceToArrayPointer:
		return fr.origins(x.X, depth+1)
	case *ssa.TypeAssert:
		return fr.origins(x.X, depth+1)
	case *ssa.Phi:
		var r []ssa.Value
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Phi); ok {
				r = append(r, e)
				continue
			}
			r = append(r, fr.origins(e, depth+1)...)
		}
		return append(r, v)
	}
	return []ssa.Value{v}
}

// carries: a store to this place taints the object.
func (x *timing) carries(addr ssa.Value) bool {
	if !x.macs {
		return true
	}
	_, isField := addr.(*ssa.FieldAddr)
	return !isField
}

func (x *timing) instr(fr *tframe, i ssa.Instruction, depth int) {
	switch v := i.(type) {
	case *ssa.Store:
		if fr.has(v.Val) && x.carries(v.Addr) {
			for _, o := range fr.origins(v.Addr, 0) {
				if !fr.mem[o] {
					fr.mem[o] = true
					fr.work = true
				}
			}
		}
	case *ssa.MapUpdate:
		if fr.has(v.Value) && !x.macs {
			fr.mark(v.Map)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fr.has(v.X) {
				fr.mark(v)
			}
		} else if fr.has(v.X) {
			fr.mark(v)
		}
	case *ssa.BinOp:
		if b, ok := v.X.(*ssa.Const); ok && b.Value == nil {
			return
		}
		if b, ok := v.Y.(*ssa.Const); ok && b.Value == nil && refType(v.X.Type()) {
			return
		}
		if wholeDiff(v) {
			return
		}
		if fr.has(v.X) || fr.has(v.Y) {
			fr.mark(v)
		}
	case *ssa.Call:
		x.call(fr, v, &v.Call, depth)
	case *ssa.Defer:
		x.call(fr, nil, &v.Call, depth)
	case *ssa.Go:
		x.call(fr, nil, &v.Call, depth)
	case *ssa.Extract:
		if fr.val[v.Tuple] && !plainResult(v.Type()) {
			fr.mark(v)
		}
	case *ssa.Return:
		for k, r := range v.Results {
			if fr.has(r) && !types.Identical(r.Type(), types.Universe.Lookup("error").Type()) {
				fr.sum.ret[k] = true
			}
		}
	case *ssa.MakeClosure:
		var in []bool
		for _, b := range v.Bindings {
			in = append(in, fr.has(b))
		}
		f := v.Fn.(*ssa.Function)
		s := x.analyse(f, make([]bool, len(f.Params)), in, depth+1)
		for k, b := range v.Bindings {
			if s.free[k] {
				fr.mark(b)
			}
		}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Next, *ssa.Range, *ssa.Select:
	case *ssa.MakeInterface:
		if !refType(v.X.Type()) && fr.has(v.X) {
			fr.mark(v)
		}
	case ssa.Value:
		for _, o := range i.Operands(nil) {
			if *o == nil {
				continue
			}
			switch y := v.(type) {
			case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
				continue // by origin
			case *ssa.Lookup:
				if *o == y.Index {
					continue
				}
			case *ssa.Index:
				if *o == y.Index {
					continue
				}
			}
			if fr.has(*o) {
				fr.mark(v)
				return
			}
		}
	}
}

func (x *timing) call(fr *tframe, v *ssa.Call, c *ssa.CallCommon, depth int) {
	set := func(k, n int) {
		if v == nil {
			return
		}
		if n <= 1 {
			fr.mark(v)
			return
		}
		for _, r := range *v.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == k {
				fr.mark(e)
			}
		}
	}
	var args []ssa.Value
	if c.IsInvoke() {
		args = append(args, c.Value)
	}
	args = append(args, c.Args...)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range args {
				if fr.has(a) {
					set(0, 1)
					if refType(args[0].Type()) {
						fr.mark(args[0])
					}
				}
			}
		case "copy":
			if fr.has(args[1]) {
				fr.mark(args[0])
			}
		case "min", "max", "ssa:wrapnilchk":
			for _, a := range args {
				if fr.has(a) {
					set(0, 1)
				}
			}
		}
		return
	}
	f := c.StaticCallee()
	name := ""
	if f != nil {
		name = f.String()
	}
	if f != nil && f.Blocks != nil && x.c.p.isModFn(f) {
		in := make([]bool, len(f.Params))
		for k := range f.Params {
			if k < len(args) {
				in[k] = fr.has(args[k])
			}
		}
		s := x.analyse(f, in, nil, depth+1)
		for k := range s.ret {
			if s.ret[k] {
				set(k, len(s.ret))
			}
		}
		for k := range s.out {
			if s.out[k] && k < len(args) && refType(args[k].Type()) {
				fr.mark(args[k])
			}
		}
		return
	}
	if strings.HasPrefix(name, "crypto/subtle.") || name == "crypto/hmac.Equal" || strings.Contains(name, modPath+"/logger.") {
		return
	}
	// sources
	if x.randoms && (name == "io.ReadFull" || name == "crypto/rand.Read") && len(args) > 0 {
		fr.mark(args[len(args)-1])
		return
	}
	if x.macs && name == "crypto/hmac.New" {
		fr.mac[v] = true
		return
	}
	if x.macs && c.IsInvoke() && c.Method.Name() == "Sum" {
		for _, o := range fr.origins(c.Value, 0) {
			if fr.mac[o] {
				set(0, 1)
				for _, a := range c.Args {
					if refType(a.Type()) {
						fr.mark(a)
					}
				}
				return
			}
		}
	}
	any := false
	for _, a := range args {
		any = any || fr.has(a)
	}
	if !any {
		return
	}
	if x.macs && c.IsInvoke() && c.Method.Name() == "Write" {
		return
	}
	if x.macs && f != nil && fnPkg(f) != nil {
		switch p := fnPkg(f).Pkg.Path(); {
		case p == "bytes" || p == "strings" || p == "slices" || p == "reflect" || strings.HasPrefix(p, "encoding/"):
		default:
			return // a key made of a MAC is another secret
		}
	}
	for _, a := range args {
		if refType(a.Type()) && !x.macs {
			fr.mark(a)
		}
	}
	if v != nil {
		switch t := v.Type().(type) {
		case *types.Tuple:
			for k := 0; k < t.Len(); k++ {
				if !plainResult(t.At(k).Type()) {
					set(k, t.Len())
				}
			}
		default:
			if !plainResult(t) {
				set(0, 1)
			}
		}
	}
}

func (x *timing) sink(fr *tframe, i ssa.Instruction) {
	at := func(kind string, pos token.Pos, bad bool) {
		k := kind + " in " + relName(fr.f)
		if bad {
			if _, ok := x.sinks[k]; !ok {
				x.sinks[k] = pos
			}
			return
		}
		p := x.c.p.prog.Fset.Position(pos)
		x.looked[fmt.Sprintf("%s %s:%d:%d", k, p.Filename, p.Line, p.Column)] = true
	}
	switch v := i.(type) {
	case *ssa.If:
		at("a branch", v.Cond.Pos(), fr.val[v.Cond])
	case *ssa.IndexAddr:
		at("an index", v.Pos(), fr.has(v.Index))
	case *ssa.Index:
		at("an index", v.Pos(), fr.has(v.Index))
	case *ssa.Lookup:
		at("an index", v.Pos(), fr.has(v.Index))
	case *ssa.BinOp:
		switch v.Op {
		case token.QUO, token.REM:
			if _, ok := v.Y.(*ssa.Const); !ok {
				at("a division", v.Pos(), fr.has(v.X) || fr.has(v.Y))
			}
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			switch u := v.X.Type().Underlying().(type) {
			case *types.Array, *types.Struct:
				at("a comparison", v.Pos(), fr.has(v.X) || fr.has(v.Y))
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					at("a comparison", v.Pos(), fr.has(v.X) || fr.has(v.Y))
				}
			}
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			n := f.String()
			if j := strings.IndexByte(n, '['); j > 0 {
				n = n[:j]
			}
			if leaky[n] {
				bad := false
				for _, a := range v.Call.Args {
					bad = bad || fr.has(a)
				}
				at("a comparison by "+n, v.Pos(), bad)
			}
		}
	}
}

// wholeDiff recognises d == 0 after a loop that collected every difference in
// d with or: the outcome of a comparison that looked at everything.
func wholeDiff(v *ssa.BinOp) bool {
	if v.Op != token.EQL && v.Op != token.NEQ {
		return false
	}
	if c, ok := v.Y.(*ssa.Const); !ok || c.Value == nil || c.Value.ExactString() != "0" {
		return false
	}
	d := v.X
	for {
		if cv, ok := d.(*ssa.Convert); ok {
			d = cv.X
			continue
		}
		break
	}
	phi, ok := d.(*ssa.Phi)
	if !ok {
		return false
	}
	collected := false
	for _, e := range phi.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.OR && (b.X == phi || b.Y == phi) {
			collected = true
		}
	}
	if !collected {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == phi.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if reach(s) {
					return true
				}
			}
		}
		return false
	}
	return !reach(v.Block())
}

func (x *timing) report(rule, what string) {
	var ks []string
	for k := range x.sinks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.c.ob(rule, k+" does not depend on "+what, x.sinks[k], false, func() string { return "it is computed from " + what })
	}
	for k := range x.looked {
		x.c.ob(rule, k+" does not depend on "+what, token.NoPos, true, nil)
	}
	for f := range x.fns {
		x.c.fns[f] = true
	}
}

func newTiming(c *ctx) *timing {
	return &timing{c: c, memo: map[string]*tsum{}, sinks: map[string]token.Pos{}, looked: map[string]bool{}, fns: map[string]bool{}}
}

func c35(c *ctx) {
	// signing and the arithmetic under it
	x := newTiming(c)
	x.randoms = true
	roots := 0
	root := func(f *ssa.Function, which func(p *ssa.Parameter) bool) {
		if f == nil || f.Blocks == nil {
			return
		}
		roots++
		in := make([]bool, len(f.Params))
		for i, p := range f.Params {
			in[i] = which(p)
		}
		x.analyse(f, in, nil, 0)
	}
	private := func(p *ssa.Parameter) bool { return strings.Contains(p.Type().String(), "ECPrivate") }
	all := func(p *ssa.Parameter) bool { return true }
	for _, path := range []string{"ecc", "ecc/edwards25519", "kdf"} {
		k := c.p.byP[path]
		if k == nil {
			continue
		}
		var ns []string
		for n := range k.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			f, ok := k.Members[n].(*ssa.Function)
			if !ok || !token.IsExported(n) {
				continue
			}
			switch {
			case path == "ecc/edwards25519" && (strings.HasPrefix(n, "GeScalar") || strings.HasPrefix(n, "Sc") || n == "FeInvert" || n == "FeMul" || n == "FeSquare" || n == "FeCMove" || n == "PreComputedGroupElementCMove" || n == "FeToBytes"):
				root(f, all)
			case path == "ecc" && (n == "CalculateSignature" || strings.HasPrefix(n, "Generate")):
				root(f, private)
			case path == "kdf" && strings.HasPrefix(n, "Calculate"):
				root(f, all)
			}
		}
	}
	c.ob("time.roots", "the operations on private keys are there", token.NoPos, roots >= 6, func() string { return fmt.Sprint(roots) })
	x.report("time.signing", "a private key or a nonce")
	// message authentication codes
	y := newTiming(c)
	y.macs = true
	var fs []*ssa.Function
	for f := range c.p.all {
		if !c.p.isGenerated(f) && f.Parent() == nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		y.analyse(f, make([]bool, len(f.Params)), make([]bool, len(f.FreeVars)), 0)
	}
	y.report("time.mac", "a message authentication code")
}

func init() {
	reg("C35", 20, "Each branch, index, division and comparison reached from signing, scalar arithmetic and key derivation with secret inputs, and each reached by a computed MAC anywhere in the module.", c35)
}
