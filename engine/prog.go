package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Functional-Bus-Description-Language/go-fbdl"
const vPkgPath = modPath + "/internal/verifh/v"
const hPkgPath = modPath + "/internal/verifh/h"

// Prog is the loaded program: shared, read-only after loading.
type Prog struct {
	prog   *ssa.Program
	byPath map[string]*ssa.Package
	infos  sync.Map // *ssa.Function -> *fnInfo
	sizes  types.Sizes
	vpkg   *ssa.Package
	hpkg   *ssa.Package

	errorStringT types.Type // *errors.errorString
	wrapErrorT   types.Type // *fmt.wrapError
}

func loadProg(repo string, overlay map[string][]byte, cli bool) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0"),
		// portable instead of assembly routines
		BuildFlags: []string{"-tags=math_big_pure_go,purego"},
	}
	pats := []string{hPkgPath}
	if cli {
		pats = append(pats, cliPath)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad += fmt.Sprintf("%s: %v\n", p.PkgPath, e)
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("load errors:\n%s", bad)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	P := &Prog{prog: prog, byPath: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64")}
	for _, p := range prog.AllPackages() {
		P.byPath[p.Pkg.Path()] = p
	}
	P.vpkg = P.byPath[vPkgPath]
	P.hpkg = P.byPath[hPkgPath]
	if P.vpkg == nil || P.hpkg == nil {
		return nil, fmt.Errorf("harness packages not loaded")
	}
	if p := P.byPath["errors"]; p != nil {
		P.errorStringT = types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
	}
	if p := P.byPath["fmt"]; p != nil {
		P.wrapErrorT = types.NewPointer(p.Pkg.Scope().Lookup("wrapError").Type())
	}
	return P, nil
}

// ---- per-function preprocessing ----

type opnd struct {
	k   uint8 // 0 absent, 1 register, 2 shared constant, 3 global, 4 fresh zero
	idx int32
	val value
	g   *ssa.Global
	t   types.Type
}

type cinstr struct {
	ins ssa.Instruction
	dst int32
	op  []opnd
	ki  kinfo // operand kind (BinOp X, UnOp X, Convert from)
	kj  kinfo // result kind / Y kind
	mi  *mergeInfo
	aux any
}

type cblock struct {
	b     *ssa.BasicBlock
	nphi  int
	code  []cinstr
	loopH bool
}

type fnInfo struct {
	fn    *ssa.Function
	name  string
	nregs int
	slot  map[ssa.Value]int32
	blk   []*cblock
	intr  intrinsic
	pure  int8 // 0 unknown 1 pure 2 impure
	inMod bool
}

type mergeInfo struct {
	join  *ssa.BasicBlock // nil: merge at function return
	order []*ssa.BasicBlock
}

func (P *Prog) info(fn *ssa.Function) *fnInfo {
	if x, ok := P.infos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := P.compile(fn)
	x, _ := P.infos.LoadOrStore(fn, fi)
	return x.(*fnInfo)
}

func (P *Prog) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fn.String(), slot: map[ssa.Value]int32{}}
	if o := fn.Origin(); o != nil {
		fi.name = o.String()
	}
	fi.intr = intrinsics[fi.name]
	if fn.Pkg != nil {
		fi.inMod = isMod(fn.Pkg.Pkg.Path())
	}
	n := int32(0)
	add := func(v ssa.Value) {
		fi.slot[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = int(n)
	var ipd []int
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		for _, ins := range b.Instrs {
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = fi.slot[v]
			}
			var rands []*ssa.Value
			rands = ins.Operands(rands)
			ci.op = make([]opnd, len(rands))
			for i, r := range rands {
				if r == nil || *r == nil {
					continue
				}
				ci.op[i] = P.opnd(fi, *r)
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				cb.nphi++
			case *ssa.BinOp:
				ci.ki = kindOf(x.X.Type())
				ci.kj = kindOf(x.Y.Type())
			case *ssa.UnOp:
				ci.ki = kindOf(x.X.Type())
				ci.kj = kindOf(x.Type())
			case *ssa.Convert:
				ci.ki = kindOf(x.X.Type())
				ci.kj = kindOf(x.Type())
			case *ssa.Index:
				ci.ki = kindOf(x.X.Type())
				ci.kj = kindOf(x.Index.Type())
			case *ssa.IndexAddr:
				ci.ki = kindOf(x.X.Type())
				ci.kj = kindOf(x.Index.Type())
			case *ssa.Lookup:
				ci.ki = kindOf(x.X.Type())
				ci.kj = kindOf(x.Index.Type())
			case *ssa.If:
				if ipd == nil {
					ipd = postDom(fn)
				}
				ci.mi = P.findMerge(fn, b, ipd)
			}
			cb.code = append(cb.code, ci)
		}
		fi.blk = append(fi.blk, cb)
	}
	return fi
}

func isMod(path string) bool {
	return path == modPath || len(path) > len(modPath) && path[:len(modPath)+1] == modPath+"/" || path == "command-line-arguments"
}

func (P *Prog) opnd(fi *fnInfo, v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			z := zero(v.Type())
			switch z.(type) {
			case Struct, Array:
				return opnd{k: 4, t: v.Type()}
			}
			return opnd{k: 2, val: z}
		}
		return opnd{k: 2, val: constVal(v)}
	case *ssa.Global:
		return opnd{k: 3, g: v}
	case *ssa.Function:
		return opnd{k: 2, val: v}
	case *ssa.Builtin:
		return opnd{k: 2, val: v}
	}
	i, ok := fi.slot[v]
	if !ok {
		panic("no slot for " + v.Name() + " in " + fi.name)
	}
	return opnd{k: 1, idx: i}
}

func constVal(c *ssa.Const) value {
	if tp, ok := c.Type().Underlying().(*types.Basic); ok {
		k := kindOf(tp)
		switch k.cls {
		case kBool:
			return constant.BoolVal(c.Value)
		case kInt:
			if k.signed {
				return uint64(c.Int64()) & mask(k.w)
			}
			return c.Uint64() & mask(k.w)
		case kFloat:
			return c.Float64()
		case kString:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case kUnsafePtr, kPtr:
			return (*value)(nil)
		case kComplex:
			return nil
		}
	}
	panic(unsupported{"constant " + c.String()})
}

// postDom computes immediate post-dominators; -1 is the virtual exit.
func postDom(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	// set-based iterative algorithm (functions are small)
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	exit := make([]uint64, words)
	exit[n/64] |= 1 << (n % 64)
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := append([]uint64(nil), full...)
			if len(b.Succs) == 0 {
				copy(nw, exit)
			}
			for _, s := range b.Succs {
				for k := range nw {
					nw[k] &= pd[s.Index][k]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	cnt := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>(i%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	sz := make([]int, n)
	for i := range sz {
		sz[i] = cnt(pd[i])
	}
	res := make([]int, n)
	for i := range res {
		res[i] = -1
		best := -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>(j%64)&1 == 1 && sz[j] > best {
				best = sz[j]
				res[i] = j
			}
		}
	}
	return res
}

const maxMergeBlocks = 24

// findMerge finds a side-effect free acyclic region between the If ending b and
// its immediate post-dominator.
func (P *Prog) findMerge(fn *ssa.Function, b *ssa.BasicBlock, ipd []int) *mergeInfo {
	if fn.Recover != nil {
		return nil
	}
	j := ipd[b.Index]
	var join *ssa.BasicBlock
	if j >= 0 {
		join = fn.Blocks[j]
		for _, ins := range join.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			switch kindOf(phi.Type()).cls {
			case kInt, kBool, kString, kPtr, kIface, kFunc, kSlice, kMap, kFloat:
			default:
				return nil
			}
		}
	} else {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			switch kindOf(fn.Signature.Results().At(i).Type()).cls {
			case kInt, kBool:
			default:
				return nil
			}
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
	}
	// collect
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		if x == join {
			return true
		}
		if x == b {
			return false
		}
		switch state[x] {
		case 1:
			return false
		case 2:
			return true
		}
		state[x] = 1
		if len(state) > maxMergeBlocks || !P.pureBlock(x, join == nil) {
			return false
		}
		for _, s := range x.Succs {
			if !visit(s) {
				return false
			}
		}
		state[x] = 2
		post = append(post, x)
		return true
	}
	for _, s := range b.Succs {
		if !visit(s) {
			return nil
		}
	}
	// reverse post order
	for i, k := 0, len(post)-1; i < k; i, k = i+1, k-1 {
		post[i], post[k] = post[k], post[i]
	}
	in := map[*ssa.BasicBlock]bool{b: true}
	for _, x := range post {
		in[x] = true
	}
	for _, x := range post {
		for _, p := range x.Preds {
			if !in[p] {
				return nil
			}
		}
	}
	return &mergeInfo{join: join, order: post}
}

// pureBlock: no stores, no allocation, no panics by construction; things that
// could trap are allowed and abort the merge at run time.
func (P *Prog) pureBlock(b *ssa.BasicBlock, retOK bool) bool {
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.BinOp, *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr,
			*ssa.Convert, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Extract, *ssa.MakeInterface:
			if c, ok := ins.(*ssa.Convert); ok {
				if k := kindOf(c.Type()); k.cls != kInt {
					return false
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Return:
			if !retOK {
				return false
			}
		case *ssa.Call:
			if !P.pureCall(x, 0) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

var pureIntr = map[string]bool{}

func (P *Prog) pureCall(c *ssa.Call, depth int) bool {
	if c.Call.IsInvoke() {
		return false
	}
	switch f := c.Call.Value.(type) {
	case *ssa.Builtin:
		return f.Name() == "len" || f.Name() == "cap" || f.Name() == "min" || f.Name() == "max"
	case *ssa.Function:
		return P.pureFn(f, depth+1)
	}
	return false
}

func (P *Prog) pureFn(f *ssa.Function, depth int) bool {
	if depth > 3 || len(f.Blocks) == 0 || len(f.Blocks) > 16 || f.Recover != nil || len(f.FreeVars) > 0 {
		return false
	}
	name := f.String()
	if intrinsics[name] != nil {
		return pureIntr[name]
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr,
				*ssa.Convert, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Extract, *ssa.MakeInterface, *ssa.Return:
			case *ssa.Alloc:
				// address-taken receiver copies; local memory only
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if !P.pureCall(x, depth) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}
