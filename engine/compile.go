package main

// Translation of go/ssa functions into a compact register code.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Opd int32 // >=0 register, <0 constant ^i

type iop uint8

const (
	iAlloc iop = iota
	iBin
	iUn
	iLoad
	iStore
	iRecv
	iCall
	iInvoke
	iCallDyn
	iBuiltin
	iMove
	iConvert
	iDefer
	iGo
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iTypeAssert
	iSl2Arr
	iUnsupported
)

type Instr struct {
	op      iop
	tok     token.Token
	w, w2   uint8
	sg      bool
	k, k2   Kind
	commaok bool
	heap    bool
	dst     int32
	a, b, c Opd
	d       Opd
	args    []Opd
	imm     int
	imm2    int
	typ     types.Type
	typ2    types.Type
	lay     *Layout
	lay2    *Layout
	fn      *Fn
	meth    *types.Func
	name    string
	t1, t2  int
	sel     []selCase
	pos     token.Pos
}

type selCase struct {
	send bool
	ch   Opd
	v    Opd
}

type phi struct {
	dst   int32
	edges []Opd
}

type Block struct {
	ins   []Instr
	phis  []phi
	preds []int
}

type Fn struct {
	f        *ssa.Function
	name     string
	pkg      string
	once     sync.Once
	compiled bool
	nregs    int
	params   int
	freeBase int
	blocks   []Block
	consts   []Val
	recover  int
	intr     intrinsic
	resolved bool
	redirect *Fn
	noBody   bool
	results  *types.Tuple
	calls    int64
	regTypes []types.Type
	cover    []int64
	mergeMe  bool
	isInit   bool
}

type Prog struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	fns     map[*ssa.Function]*Fn
	mu      sync.Mutex
	globals map[*ssa.Global]*Obj
	gvals   map[*ssa.Global]Val
	fset    *token.FileSet
	interp  map[string]bool // packages whose bodies we interpret
	imu     sync.Mutex
	itab    map[itabKey]*Fn
	initSt  *State
}

type itabKey struct {
	t types.Type
	m *types.Func
}

func (p *Prog) fnOf(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fn, ok := p.fns[f]; ok {
		return fn
	}
	fn := &Fn{f: f, name: f.String(), results: f.Signature.Results()}
	if f.Pkg != nil {
		fn.pkg = f.Pkg.Pkg.Path()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		fn.pkg = f.Origin().Pkg.Pkg.Path()
		fn.name = f.Origin().String()
	}
	p.fns[f] = fn
	return fn
}

func (p *Prog) resolve(fn *Fn) {
	fn.once.Do(func() {
		f := fn.f
		if r, ok := cliRedirects[fn.name]; ok {
			if pk := p.pkgs[modPath+"/internal/vh/cli"]; pk != nil {
				fn.redirect = p.fnOf(pk.Func(r))
				fn.resolved = true
				return
			}
		}
		if in, ok := intrinsics[fn.name]; ok {
			fn.intr = in
			fn.resolved = true
			return
		}
		if r, ok := redirects[fn.name]; ok {
			pk := p.pkgs[modelPkg]
			if h, n, ok := strings.Cut(r, ":"); ok {
				pk, r = p.pkgs[modPath+"/internal/vh/"+h], n
			}
			if pk != nil {
				if mf := pk.Func(r); mf != nil {
					fn.redirect = p.fnOf(mf)
					fn.resolved = true
					return
				}
			}
		}
		if f.Name() == "init" && f.Synthetic == "package initializer" {
			fn.isInit = true
			if !p.interp[fn.pkg] || fn.pkg == "errors" {
				fn.intr = func(st *State, c *callCtx) { c.ret(Val{}) }
				fn.resolved = true
				return
			}
		}
		if len(f.Blocks) == 0 {
			// wrappers without package are built lazily by ssa; anything else has no body here
			fn.noBody = true
			fn.resolved = true
			return
		}
		if fn.pkg != "" && !p.interp[fn.pkg] {
			fn.noBody = true
			fn.resolved = true
			return
		}
		p.compile(fn)
		fn.resolved = true
	})
}

func (p *Prog) compile(fn *Fn) {
	f := fn.f
	regs := map[ssa.Value]int32{}
	n := int32(0)
	addReg := func(v ssa.Value) {
		regs[v] = n
		n++
		fn.regTypes = append(fn.regTypes, v.Type())
	}
	for _, q := range f.Params {
		addReg(q)
	}
	fn.params = len(f.Params)
	fn.freeBase = int(n)
	for _, q := range f.FreeVars {
		addReg(q)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				addReg(v)
			}
		}
	}
	fn.nregs = int(n)
	cidx := map[ssa.Value]Opd{}
	opd := func(v ssa.Value) Opd {
		if v == nil {
			return Opd(math.MinInt32)
		}
		if r, ok := regs[v]; ok {
			return Opd(r)
		}
		if o, ok := cidx[v]; ok {
			return o
		}
		fn.consts = append(fn.consts, p.constVal(v))
		o := ^Opd(len(fn.consts) - 1)
		cidx[v] = o
		return o
	}
	fn.recover = -1
	if f.Recover != nil {
		fn.recover = f.Recover.Index
	}
	fn.blocks = make([]Block, len(f.Blocks))
	fn.cover = make([]int64, len(f.Blocks))
	for bi, b := range f.Blocks {
		blk := &fn.blocks[bi]
		for _, pr := range b.Preds {
			blk.preds = append(blk.preds, pr.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				e := phi{dst: regs[ph]}
				for _, x := range ph.Edges {
					e.edges = append(e.edges, opd(x))
				}
				blk.phis = append(blk.phis, e)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			blk.ins = append(blk.ins, p.compInstr(fn, b, in, regs, opd))
		}
	}
	fn.compiled = true
}

func setKind(i *Instr, t types.Type) {
	ck := kindOf(t)
	i.k, i.w, i.sg = ck.k, ck.w, ck.s
	if isAgg(t) {
		i.k = KOther
	}
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func (p *Prog) compInstr(fn *Fn, b *ssa.BasicBlock, in ssa.Instruction, regs map[ssa.Value]int32, opd func(ssa.Value) Opd) Instr {
	i := Instr{dst: -1, pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		i.dst = regs[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		i.op = iAlloc
		i.typ = deref(x.Type())
		i.lay = layoutOf(i.typ)
		i.heap = x.Heap
		i.name = x.Comment
	case *ssa.BinOp:
		i.op = iBin
		i.tok = x.Op
		i.a, i.b = opd(x.X), opd(x.Y)
		i.typ = x.X.Type()
		setKind(&i, x.X.Type())
		ck := kindOf(x.Y.Type())
		i.w2 = ck.w
		i.commaok = ck.s // signed shift count
		i.typ2 = x.Y.Type()
	case *ssa.UnOp:
		i.a = opd(x.X)
		i.tok = x.Op
		i.typ = x.Type()
		switch x.Op {
		case token.MUL:
			i.op = iLoad
			i.lay = layoutOf(x.Type())
			setKind(&i, x.Type())
		case token.ARROW:
			i.op = iRecv
			i.commaok = x.CommaOk
			i.typ = x.X.Type().Underlying().(*types.Chan).Elem()
		default:
			i.op = iUn
			setKind(&i, x.Type())
		}
	case *ssa.Call:
		p.compCall(&i, &x.Call, opd)
		i.typ = x.Type()
	case *ssa.Defer:
		p.compCall(&i, &x.Call, opd)
		i.imm = int(i.op)
		i.op = iDefer
	case *ssa.Go:
		p.compCall(&i, &x.Call, opd)
		i.imm = int(i.op)
		i.op = iGo
	case *ssa.ChangeInterface, *ssa.ChangeType:
		i.op = iMove
		i.a = opd(*in.Operands(nil)[0])
	case *ssa.Convert:
		i.op = iConvert
		i.a = opd(x.X)
		i.typ, i.typ2 = x.X.Type(), x.Type()
		setKind(&i, x.Type())
		ck := kindOf(x.X.Type())
		i.k2, i.w2 = ck.k, ck.w
		i.commaok = ck.s // source signed
	case *ssa.MultiConvert:
		i.op = iUnsupported
		i.name = "MultiConvert"
	case *ssa.Extract:
		i.op = iExtract
		i.a = opd(x.Tuple)
		i.imm = x.Index
	case *ssa.Field:
		i.op = iField
		i.a = opd(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		i.imm = fieldOff(st, x.Field)
		i.lay = layoutOf(st.Field(x.Field).Type())
		i.heap = isAgg(st.Field(x.Field).Type())
	case *ssa.FieldAddr:
		i.op = iFieldAddr
		i.a = opd(x.X)
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		i.imm = fieldOff(st, x.Field)
	case *ssa.If:
		i.op = iIf
		i.a = opd(x.Cond)
		i.t1, i.t2 = b.Succs[0].Index, b.Succs[1].Index
	case *ssa.Jump:
		i.op = iJump
		i.t1 = b.Succs[0].Index
	case *ssa.Index:
		i.op = iIndex
		i.a, i.b = opd(x.X), opd(x.Index)
		ck := kindOf(x.Index.Type())
		i.w2 = ck.w
		i.commaok = ck.s
		i.typ = x.X.Type()
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			i.lay = layoutOf(at.Elem())
			i.imm = int(at.Len())
			i.heap = isAgg(at.Elem())
		} else {
			i.k = KString
		}
		i.typ2 = x.Type()
	case *ssa.IndexAddr:
		i.op = iIndexAddr
		i.a, i.b = opd(x.X), opd(x.Index)
		ck := kindOf(x.Index.Type())
		i.w2 = ck.w
		i.commaok = ck.s
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			i.k = KSlice
			i.lay = layoutOf(u.Elem())
			i.typ = u.Elem()
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			i.k = KPtr
			i.lay = layoutOf(at.Elem())
			i.imm = int(at.Len())
			i.typ = at.Elem()
		}
	case *ssa.Lookup:
		i.op = iLookup
		i.a, i.b = opd(x.X), opd(x.Index)
		i.commaok = x.CommaOk
		i.typ = x.X.Type()
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			i.k = KMap
			i.typ2 = mt.Elem()
			i.typ = mt.Key()
		} else {
			i.k = KString
			ck := kindOf(x.Index.Type())
			i.w2 = ck.w
			i.heap = ck.s
		}
	case *ssa.MakeChan:
		i.op = iMakeChan
		i.a = opd(x.Size)
	case *ssa.MakeClosure:
		i.op = iMakeClosure
		i.fn = p.fnOf(x.Fn.(*ssa.Function))
		for _, bv := range x.Bindings {
			i.args = append(i.args, opd(bv))
		}
	case *ssa.MakeInterface:
		i.op = iMakeInterface
		i.a = opd(x.X)
		i.typ = canonType(x.X.Type())
	case *ssa.MakeMap:
		i.op = iMakeMap
		i.typ = x.Type()
	case *ssa.MakeSlice:
		i.op = iMakeSlice
		i.a, i.b = opd(x.Len), opd(x.Cap)
		i.typ = x.Type().Underlying().(*types.Slice).Elem()
		i.lay = layoutOf(i.typ)
		i.w = kindOf(x.Len.Type()).w
		i.w2 = kindOf(x.Cap.Type()).w
		i.sg = kindOf(x.Len.Type()).s
	case *ssa.MapUpdate:
		i.op = iMapUpdate
		i.a, i.b, i.c = opd(x.Map), opd(x.Key), opd(x.Value)
		i.typ = x.Map.Type().Underlying().(*types.Map).Key()
	case *ssa.Next:
		i.op = iNext
		i.a = opd(x.Iter)
		i.commaok = x.IsString
		i.typ = x.Type()
	case *ssa.Panic:
		i.op = iPanic
		i.a = opd(x.X)
	case *ssa.Range:
		i.op = iRange
		i.a = opd(x.X)
		i.typ = x.X.Type()
	case *ssa.Return:
		i.op = iReturn
		for _, r := range x.Results {
			i.args = append(i.args, opd(r))
		}
	case *ssa.RunDefers:
		i.op = iRunDefers
	case *ssa.Select:
		i.op = iSelect
		i.commaok = x.Blocking
		for _, s := range x.States {
			sc := selCase{ch: opd(s.Chan)}
			if s.Dir == types.SendOnly {
				sc.send = true
				sc.v = opd(s.Send)
			}
			i.sel = append(i.sel, sc)
		}
		i.typ = x.Type()
	case *ssa.Send:
		i.op = iSend
		i.a, i.b = opd(x.Chan), opd(x.X)
	case *ssa.Slice:
		i.op = iSlice
		i.a = opd(x.X)
		i.b, i.c, i.d = opd(x.Low), opd(x.High), opd(x.Max)
		ws := func(v ssa.Value) (uint8, bool) {
			if v == nil {
				return 64, true
			}
			ck := kindOf(v.Type())
			return ck.w, ck.s
		}
		i.w, i.sg = ws(x.Low)
		i.w2, i.commaok = ws(x.High)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			i.k = KSlice
			i.lay = layoutOf(u.Elem())
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			i.k = KPtr
			i.lay = layoutOf(at.Elem())
			i.imm = int(at.Len())
		default:
			i.k = KString
		}
	case *ssa.SliceToArrayPointer:
		i.op = iSl2Arr
		i.a = opd(x.X)
		at := deref(x.Type()).Underlying().(*types.Array)
		i.imm = int(at.Len())
	case *ssa.Store:
		i.op = iStore
		i.a, i.b = opd(x.Addr), opd(x.Val)
		i.typ = x.Val.Type()
		i.lay = layoutOf(x.Val.Type())
		setKind(&i, x.Val.Type())
	case *ssa.TypeAssert:
		i.op = iTypeAssert
		i.a = opd(x.X)
		i.typ = canonType(x.AssertedType)
		i.commaok = x.CommaOk
		_, i.heap = x.AssertedType.Underlying().(*types.Interface)
	default:
		i.op = iUnsupported
		i.name = fmt.Sprintf("%T", in)
	}
	return i
}

func (p *Prog) compCall(i *Instr, c *ssa.CallCommon, opd func(ssa.Value) Opd) {
	for _, a := range c.Args {
		i.args = append(i.args, opd(a))
	}
	if c.IsInvoke() {
		i.op = iInvoke
		i.a = opd(c.Value)
		i.meth = c.Method
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		i.op = iBuiltin
		i.name = v.Name()
		if len(c.Args) > 0 {
			i.typ2 = c.Args[0].Type()
			if s, ok := i.typ2.Underlying().(*types.Slice); ok {
				i.lay = layoutOf(s.Elem())
			}
			ck := kindOf(i.typ2)
			i.k, i.w, i.sg = ck.k, ck.w, ck.s
			if len(c.Args) > 1 {
				i.k2 = kindOf(c.Args[1].Type()).k
				i.w2 = kindOf(c.Args[1].Type()).w
			}
		}
	case *ssa.Function:
		i.op = iCall
		i.fn = p.fnOf(v)
	default:
		i.op = iCallDyn
		i.a = opd(v)
	}
}

func (p *Prog) constVal(v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constToVal(x)
	case *ssa.Global:
		return Val{x: p.globalObj(x)}
	case *ssa.Function:
		return Val{x: &Func{fn: p.fnOf(x)}}
	case *ssa.Builtin:
		return Val{x: &Func{bi: x.Name()}}
	}
	panic(fmt.Sprintf("constVal %T", v))
}

func (p *Prog) globalObj(g *ssa.Global) *Obj {
	p.mu.Lock()
	defer p.mu.Unlock()
	if o, ok := p.globals[g]; ok {
		return o
	}
	// allocated late: not expected after init of globals
	panic("global not allocated: " + g.String())
}

func constToVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return zeroVal(t)
	}
	ck := kindOf(t)
	switch ck.k {
	case KBool:
		return vBool(constant.BoolVal(x.Value))
	case KInt:
		if ck.s {
			return Val{c: uint64(x.Int64()) & mask(ck.w)}
		}
		return Val{c: x.Uint64() & mask(ck.w)}
	case KFloat, KFloat32:
		return Val{c: math.Float64bits(x.Float64())}
	case KString:
		if x.Value.Kind() == constant.String {
			return vStr(constant.StringVal(x.Value))
		}
		return vStr(string(rune(x.Int64())))
	}
	panic("constToVal " + x.String())
}

func zeroVal(t types.Type) Val {
	if isAgg(t) {
		return Val{x: &Agg{v: make([]Val, layoutOf(t).size())}}
	}
	if tt, ok := t.(*types.Tuple); ok {
		tp := &Tuple{}
		for i := 0; i < tt.Len(); i++ {
			tp.v = append(tp.v, zeroVal(tt.At(i).Type()))
		}
		return Val{x: tp}
	}
	return Val{}
}

var (
	canonMu  sync.Mutex
	canonTab = map[string][]types.Type{}
)

// canonType returns a representative such that identical types are pointer-equal.
func canonType(t types.Type) types.Type {
	canonMu.Lock()
	defer canonMu.Unlock()
	k := types.TypeString(t, nil)
	for _, u := range canonTab[k] {
		if types.Identical(u, t) {
			return u
		}
	}
	canonTab[k] = append(canonTab[k], t)
	return t
}

// method lookup for a dynamic type
func (p *Prog) method(t types.Type, m *types.Func) *Fn {
	p.imu.Lock()
	if fn, ok := p.itab[itabKey{t, m}]; ok {
		p.imu.Unlock()
		return fn
	}
	p.imu.Unlock()
	var fn *Fn
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel != nil {
		if f := p.prog.MethodValue(sel); f != nil {
			fn = p.fnOf(f)
		}
	}
	p.imu.Lock()
	p.itab[itabKey{t, m}] = fn
	p.imu.Unlock()
	return fn
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	f = strings.TrimPrefix(f, "/repo/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}
