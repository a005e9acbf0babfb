package main

import (
	"context"
	"fmt"
	"io"
	"strings"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	gsort "github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
	"verifsim"
)

// readers: several clients use the same structures as operands only; each gets
// what it would get alone (C04).

type rdOp struct {
	K    string `json:"k"`
	S    int    `json:"s"` // first operand: which of the shared structures
	O    int    `json:"o"` // second operand
	R    int    `json:"r"`
	C    int    `json:"c"`
	V    int    `json:"v"`
	F    string `json:"f"`    // format of its own output
	Mask int    `json:"mask"` // 0 none, 1 shared mask, 2 empty
	N    int    `json:"n"`    // repeated
}

type rdSpec struct {
	T string   `json:"type"`
	M []Mat    `json:"matrices"` // n x n
	V []Mat    `json:"vectors"`  // length n
	K Mat      `json:"mask"`     // n x n
	X []Mat    `json:"texts"`    // character matrices
	P [][]rdOp `json:"clients"`
}

type readers struct{}

var rdMat = []string{"at", "at", "element", "row", "row", "col", "col", "arr", "enum", "values", "copy", "copylogical",
	"equal", "notequal", "mxm", "mxv", "vxm", "ewmm", "ewma", "add", "sub", "apply", "trans", "tcsr", "tcsc", "scalar", "neg",
	"mtrans", "mscalar", "mmul", "madd", "msub", "mneg", "mequal", "reduce", "reduce", "reducemax", "reducevec", "reducecols",
	"strassen", "bfs", "symmetric", "skew", "rref"}

// rdLight are those that matrices of a thousand elements are used with.
var rdLight = []string{"at", "row", "col", "arr", "enum", "values", "copy", "copylogical", "equal", "notequal", "ewmm", "ewma", "add", "sub", "apply", "trans",
	"scalar", "neg", "mtrans", "mscalar", "madd", "msub", "mneg", "mequal", "reduce", "reducemax", "reducevec", "reducecols"}

func isLight(k string) bool {
	for _, x := range rdLight {
		if x == k {
			return true
		}
	}
	return false
}

var rdVec = []string{"vat", "vat", "venum", "vcopy", "vequal", "vewm", "vewa", "vadd", "vsub", "vtrans", "vreduce", "vscalar", "vrow", "vcol", "vvalues", "vtcsr"}
var rdText = []string{"tcompare", "tcompare", "tless", "tgreater", "tstring", "tequal", "trow", "tcol", "tsortr", "tsortc", "tcopy", "tat"}

func (readers) New() any { return &rdSpec{} }
func (readers) Gen(r *sim.Rng, e *Env) any {
	s := &rdSpec{T: pickType(r)}
	n := side(r, 4)
	if r.Intn(400) == 0 {
		n = 13 + r.Intn(8)
	}
	long := r.Intn(300) == 0
	if long {
		n = 33 + r.Intn(60)
	}
	thousand := r.Intn(1000) == 0
	if thousand {
		n, long = 33+r.Intn(3), false
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		most := 20
		if thousand {
			most = n
		}
		s.M = append(s.M, genMat(r, pick(r, matFormats), min(n, most), min(n, most), density(r)))
		s.V = append(s.V, genMat(r, pick(r, vecFormats), n, 1, density(r)))
		s.X = append(s.X, genRune(r, pick(r, formats), n, 1+r.Intn(3)))
	}
	if r.Intn(3) == 0 {
		// a symmetric one
		m := &s.M[0]
		for _, x := range append([][3]int{}, m.E...) {
			m.E = append(m.E, [3]int{x[1], x[0], x[2]})
		}
	}
	s.K = genMat(r, pick(r, matFormats), n, n, 4)
	kinds := [][]string{rdMat, rdMat, rdMat, rdVec, rdText}[r.Intn(5)]
	if long {
		kinds = rdVec
	}
	if thousand {
		kinds = rdLight
	}
	few := r.Intn(2) == 0
	k1, k2 := pick(r, kinds), pick(r, kinds)
	n2 := 2 + r.Intn(3)
	if r.Intn(12) == 0 {
		n2 = 5 + r.Intn(5)
	}
	for i := n2; i > 0; i-- {
		var p []rdOp
		for k := 1 + r.Intn(3); k > 0; k-- {
			o := rdOp{K: pick(r, kinds), S: r.Intn(len(s.M)), O: r.Intn(len(s.M)), R: r.Intn(n), C: r.Intn(n), V: r.Intn(6), F: pick(r, matFormats), Mask: r.Intn(3), N: 1}
			if few {
				o.K = []string{k1, k2}[r.Intn(2)]
			}
			if r.Intn(4) == 0 {
				o.N = 2
			}
			p = append(p, o)
		}
		s.P = append(s.P, p)
	}
	return s
}

// shrink makes what is shared small.
func (s *rdSpec) shrink(n int) {
	for i := range s.M {
		s.M[i].R, s.M[i].C = min(s.M[i].R, n), min(s.M[i].C, n)
	}
	for i := range s.V {
		s.V[i].R, s.V[i].C = min(s.V[i].R, n), min(s.V[i].C, n)
	}
	for i := range s.X {
		s.X[i].R, s.X[i].C = min(s.X[i].R, n), min(s.X[i].C, n)
	}
}

func (s *rdSpec) norm() {
	if len(s.M) == 0 {
		s.M = []Mat{{F: "dense", R: 1, C: 1}}
	}
	if len(s.V) == 0 {
		s.V = []Mat{{F: "dvec", R: 1, C: 1}}
	}
	if len(s.X) == 0 {
		s.X = []Mat{{F: "dense", R: 1, C: 1}}
	}
	n := clamp(s.V[0].R, 1, 100)
	for i := range s.P {
		for _, o := range s.P[i] {
			if isLight(o.K) {
				n = min(n, 36)
			} else if o.K[:min(len(o.K), 1)] != "v" {
				n = min(n, 20)
			}
		}
	}
	for i := range s.M {
		mkMat(&s.M[i])
		s.M[i].resize(n, n)
	}
	for i := range s.V {
		mkVec(&s.V[i])
		s.V[i].resize(n, 1)
	}
	mkMat(&s.K)
	s.K.resize(n, n)
	for i := range s.X {
		s.X[i].R, s.X[i].C = clamp(s.X[i].R, 1, 20), clamp(s.X[i].C, 1, 20)
		s.X[i].norm()
	}
	if n > 12 {
		// a run has to stay well inside its step limit
		s.P = s.P[:min(len(s.P), 3)]
		for i := range s.P {
			s.P[i] = s.P[i][:min(len(s.P[i]), 2)]
		}
	}
	for i := range s.P {
		for k := range s.P[i] {
			o := &s.P[i][k]
			o.R, o.C = mod(o.R, n), mod(o.C, n)
			ok := false
			for _, f := range matFormats {
				ok = ok || o.F == f
			}
			if !ok {
				o.F = "dense"
			}
		}
	}
}

func (readers) Run(e *Env, spec any) {
	s := spec.(*rdSpec)
	s.norm()
	switch s.T {
	case "float64":
		rdRun[float64](e, s)
	case "int8":
		rdRun[int8](e, s)
	case "uint16":
		rdRun[uint16](e, s)
	default:
		rdRun[int](e, s)
	}
}

// shared is what the clients share.
type shared[T Num] struct {
	m []g.Matrix[T]
	v []g.Vector[T]
	k g.Matrix[T]
	x []g.MatrixRune
	f binaryop.MonoID[T]
}

func newShared[T Num](s *rdSpec) *shared[T] {
	d := &shared[T]{f: binaryop.NewMonoID(T(1), binaryop.NewBinaryOp(func(x, y T) T { return x*3 + y }))}
	for _, m := range s.M {
		d.m = append(d.m, build[T](m))
	}
	for _, m := range s.V {
		d.v = append(d.v, build[T](m).(g.Vector[T]))
	}
	d.k = build[T](s.K)
	for _, m := range s.X {
		d.x = append(d.x, buildRune(m))
	}
	return d
}

func vecText[T Num](v g.VectorLogial[T]) string {
	x := make([]T, v.Length())
	for i := range x {
		x[i] = v.AtVec(i) + 0
	}
	return fmt.Sprint(x)
}

// changeable changes a result that is the caller's own and shows it before.
func changeable[T Num](m g.MatrixLogical[T]) string {
	t := readGrid(m).key()
	if m.Rows() > 0 && m.Columns() > 0 {
		m.Set(0, 0, m.At(0, 0)+1)
		m.Set(m.Rows()-1, m.Columns()-1, 0)
	}
	return t
}

// rdCall is what a call is given besides its operands.
type rdCall struct {
	ctx  context.Context
	cb   func() // called by every piece of caller's code the call is given
	wrap int    // operands that are such code as well: 1 the second, 2 the first
}

func (d *shared[T]) do(o *rdOp, x0 *rdCall) (resp string) {
	a, b := d.m[mod(o.S, len(d.m))], d.m[mod(o.O, len(d.m))]
	v, w := d.v[mod(o.S, len(d.v))], d.v[mod(o.O, len(d.v))]
	x, y := d.x[mod(o.S, len(d.x))], d.x[mod(o.O, len(d.x))]
	n := a.Rows()
	ctx := idleCtx()
	var mask g.Mask
	var vmask g.Mask
	switch o.Mask {
	case 1:
		mask, vmask = d.k, w
	case 2:
		mask, vmask = g.NewEmptyMask(n, n), g.NewEmptyMask(n, 1)
	case 3:
		mask, vmask = g.NewEmptyMask(n+1, n), g.NewEmptyMask(n+1, 1)
	case 4:
		mask, vmask = g.NewEmptyMask(n, n+1), g.NewEmptyMask(n, 2)
	}
	own := func() g.Matrix[T] { return empty[T](o.F, n, n) }
	ownV := func() g.Vector[T] {
		if o.F == "dense" {
			return g.NewDenseVectorN[T](n)
		}
		return g.NewSparseVector[T](n)
	}
	uf := unary[T](o.V)
	cb := func() {}
	if x0 != nil {
		ctx, cb = x0.ctx, x0.cb
		if mask != nil {
			mask, vmask = cbMask{mask, cb}, cbMask{vmask, cb}
		}
		if x0.wrap&1 != 0 {
			b = &cbMat[T]{b, cb}
		}
		if x0.wrap&2 != 0 {
			a = &cbMat[T]{a, cb}
		}
	}
	cu := func(v T) T { cb(); return uf(v) }
	cu3 := func(_, _ int, v T) T { cb(); return uf(v) }
	u := unaryop.NewUnaryOp(cu)
	cm := binaryop.NewMonoID(T(1), binaryop.NewBinaryOp(func(x, y T) T { cb(); return x*3 + y }))
	wrong := func(k string) g.Matrix[T] {
		if strings.HasSuffix(k, "c") {
			return g.NewDenseMatrixN[T](n, n+1)
		}
		return empty[T](o.F, n+1, n)
	}
	bad := func(m g.Matrix[T], f func(g.Matrix[T])) {
		if n > 1 {
			m.Set(n-1, 0, 5)
		}
		was := readGrid[T](m).key()
		c := try(func() { f(m) })
		resp = fmt.Sprintf("panic: %v, output %s", c.val, readGrid[T](m).key())
		if is := readGrid[T](m).key(); is != was {
			resp += ", before " + was
		}
	}
	c := try(func() {
		switch o.K {
		case "at":
			resp = fmt.Sprint(a.At(o.R, o.C)+0, b.At(o.C, o.R)+0)
		case "element":
			resp = fmt.Sprint(a.Element(o.R, o.C), d.k.Element(o.C, o.R))
		case "row":
			r := a.RowsAt(o.R)
			resp = vecText(r)
			r.SetVec(o.C, num[T](o.V+1))
		case "col":
			r := a.ColumnsAt(o.C)
			resp = vecText(r)
			r.SetVec(o.R, num[T](o.V+1))
		case "arr":
			r := a.RowsAtToArray(o.R)
			resp = fmt.Sprint(r)
			r[o.C]++
		case "enum":
			resp = enumText[T](a.Enumerate(), n, n)
		case "values":
			resp = fmt.Sprint(a.Values(), a.Size(), a.Rows(), a.Columns())
		case "copy":
			resp = changeable[T](a.Copy())
		case "copylogical":
			resp = changeable[T](a.CopyLogical())
		case "equal":
			resp = fmt.Sprint(g.Equal[T](ctx, a, b))
		case "notequal":
			resp = fmt.Sprint(g.NotEqual[T](ctx, a, b))
		case "mxm":
			m := own()
			g.MatrixMatrixMultiply(ctx, a, b, mask, m)
			resp = changeable[T](m)
		case "mxv":
			m := ownV()
			g.MatrixVectorMultiply(ctx, a, v, vmask, m)
			resp = changeable[T](m)
		case "vxm":
			m := ownV()
			g.VectorMatrixMultiply(ctx, v, a, vmask, m)
			resp = changeable[T](m)
		case "ewmm":
			m := own()
			g.ElementWiseMatrixMultiply(ctx, a, b, mask, m)
			resp = changeable[T](m)
		case "ewma":
			m := own()
			g.ElementWiseMatrixAdd(ctx, a, b, mask, m)
			resp = changeable[T](m)
		case "add":
			m := own()
			g.Add(ctx, a, b, mask, m)
			resp = changeable[T](m)
		case "sub":
			m := own()
			g.Subtract(ctx, a, b, mask, m)
			resp = changeable[T](m)
		case "apply":
			m := own()
			g.Apply(ctx, a, mask, u, m)
			resp = changeable[T](m)
		case "neg":
			m := own()
			m.Set(o.R, o.C, num[T](o.V))
			g.Negative(ctx, a, mask, m)
			resp = changeable[T](m)
		case "trans":
			m := own()
			g.Transpose[T](ctx, a, mask, m)
			resp = changeable[T](m)
		case "tcsr":
			resp = changeable[T](g.TransposeToCSR(ctx, a))
		case "tcsc":
			resp = changeable[T](g.TransposeToCSC(ctx, a))
		case "scalar":
			resp = changeable[T](g.Scalar(ctx, a, num[T](o.V)))
		case "mtrans":
			resp = changeable(a.Transpose())
		case "mscalar":
			resp = changeable[T](a.Scalar(num[T](o.V)))
		case "mmul":
			resp = changeable[T](a.Multiply(b))
		case "madd":
			resp = changeable[T](a.Add(b))
		case "msub":
			resp = changeable[T](a.Subtract(b))
		case "mneg":
			resp = changeable(a.Negative())
		case "mequal":
			resp = fmt.Sprint(a.Equal(b), a.NotEqual(b))
		case "reduce":
			resp = fmt.Sprint(g.ReduceMatrixToScalar[T](ctx, a, mask))
		case "reducemax":
			resp = fmt.Sprint(g.ReduceMatrixToScalarWithMonoID[T](ctx, a, g.DefaultMonoIDMaximum[T](), mask))
		case "reducevec":
			resp = changeable[T](g.ReduceMatrixToVector(ctx, a))
		case "reducecols":
			resp = changeable[T](g.ReduceMatrixToVectorWithMonoID(ctx, a, g.DefaultMonoIDAddition[T](), vmask))
		case "strassen":
			resp = changeable[T](strassen.MultiplyCrossoverPoint(ctx, a, b, 1+o.V%3))
		case "bfs":
			breadthfirst.Search(ctx, a, o.R, func(l g.Vector[T]) bool {
				cb()
				resp += vecText[T](l) + ";"
				return false
			})
		case "symmetric":
			resp = fmt.Sprint(symmetric.Symmetric(a))
		case "skew":
			resp = fmt.Sprint(skewsymmetric.SkewSymmetric(a))
		case "rref":
			resp = changeable[T](reduced.Reduced(a))
		case "vat":
			resp = fmt.Sprint(v.AtVec(o.R)+0, v.At(o.C, 0)+0, v.Element(o.R, 0))
		case "venum":
			resp = enumText[T](v.Enumerate(), n, 1)
		case "vcopy":
			resp = changeable[T](v.Copy())
		case "vequal":
			resp = fmt.Sprint(g.Equal[T](ctx, v, w), v.Equal(w))
		case "vewm":
			m := ownV()
			g.ElementWiseVectorMultiply(ctx, v, w, vmask, m)
			resp = changeable[T](m)
		case "vewa":
			m := ownV()
			g.ElementWiseVectorAdd(ctx, v, w, vmask, m)
			resp = changeable[T](m)
		case "vadd":
			resp = changeable[T](v.Add(w))
		case "vsub":
			resp = changeable[T](v.Subtract(w))
		case "vtrans":
			resp = changeable(v.Transpose())
		case "vreduce":
			resp = fmt.Sprint(g.ReduceVectorToScalar[T](ctx, v, vmask))
		case "vscalar":
			resp = changeable[T](v.Scalar(num[T](o.V)))
		case "vrow":
			resp = vecText(v.RowsAt(o.R)) + fmt.Sprint(v.RowsAtToArray(o.R))
		case "vcol":
			r := v.ColumnsAt(0)
			resp = vecText(r)
			r.SetVec(o.R, num[T](o.V+1))
		case "vvalues":
			resp = fmt.Sprint(v.Values(), v.Size(), v.Length())
		case "vtcsr":
			resp = changeable[T](g.TransposeToCSR[T](ctx, v))
		case "tcompare":
			resp = fmt.Sprint(g.Compare(ctx, x, y))
		case "tless":
			resp = fmt.Sprint(g.Less(ctx, x, y))
		case "tgreater":
			resp = fmt.Sprint(g.Greater(ctx, x, y))
		case "tstring":
			resp = g.String(ctx, x)
		case "tequal":
			resp = fmt.Sprint(g.Equal[rune](ctx, x, y), x.NotEqual(y))
		case "trow":
			r := x.RowsAt(mod(o.R, x.Rows()))
			for i := 0; i < x.Columns(); i++ {
				resp += fmt.Sprint(r.AtVec(i), " ")
			}
		case "tcol":
			r := x.ColumnsAt(mod(o.C, x.Columns()))
			for i := 0; i < x.Rows(); i++ {
				resp += fmt.Sprint(r.AtVec(i), " ")
			}
			r.SetVec(0, 'q')
		case "tsortr":
			m := gsort.BubbleRow(ctx, x)
			resp = fmt.Sprint(readRunes(m))
			m.Set(0, 0, 'q')
		case "tsortc":
			m := gsort.BubbleColumns(ctx, x)
			resp = fmt.Sprint(readRunes(m))
			m.Set(0, 0, 'q')
		case "tcopy":
			m := x.CopyLogical()
			resp = fmt.Sprint(readRunes(m))
			m.Set(0, 0, 'q')
		case "tat":
			resp = fmt.Sprint(x.At(mod(o.R, x.Rows()), mod(o.C, x.Columns())), x.Values())
		case "update":
			m := a.Copy()
			m.Update(o.R, o.C, cu)
			m.Update(o.C, o.R, cu)
			resp = changeable[T](m)
		case "vupdate":
			m := v.Copy()
			m.Update(o.R, 0, cu)
			resp = changeable[T](m)
		case "map":
			m := a.Copy()
			for it := m.Map(); it.HasNext(); {
				it.Map(cu3)
			}
			resp = changeable[T](m)
		case "vmap":
			m := v.Copy()
			for it := m.Map(); it.HasNext(); {
				it.Map(cu3)
			}
			resp = changeable[T](m)
		case "applyin":
			m := a.Copy()
			g.Apply(ctx, m, mask, u, m)
			resp = changeable[T](m)
		case "foldm":
			resp = fmt.Sprint(g.ReduceMatrixToScalarWithMonoID[T](ctx, a, cm, mask))
		case "foldshared":
			resp = fmt.Sprint(g.ReduceMatrixToScalarWithMonoID[T](ctx, a, d.f, mask))
		case "foldv":
			resp = fmt.Sprint(g.ReduceVectorToScalarWithMonoID[T](ctx, v, cm, vmask))
		case "foldcols":
			resp = changeable[T](g.ReduceMatrixToVectorWithMonoID[T](ctx, a, cm, vmask))
		case "lockupdate":
			m := g.NewMutexMatrix(a.Copy())
			m.Update(o.R, o.C, cu)
			resp = changeable[T](m.Copy())
		case "lockmul":
			m := g.NewMutexMatrix(a.Copy())
			resp = changeable[T](m.Multiply(b)) + changeable[T](m.Copy())
		case "badadd", "badaddc":
			bad(own(), func(m g.Matrix[T]) { g.Add[T](ctx, a, wrong(o.K), mask, m) })
		case "badsub", "badsubc":
			bad(own(), func(m g.Matrix[T]) { g.Subtract[T](ctx, a, wrong(o.K), mask, m) })
		case "badmul":
			bad(own(), func(m g.Matrix[T]) { g.MatrixMatrixMultiply[T](ctx, a, wrong(""), mask, m) })
		case "badewmm":
			bad(own(), func(m g.Matrix[T]) { g.ElementWiseMatrixMultiply[T](ctx, a, wrong(""), mask, m) })
		case "badewma":
			bad(own(), func(m g.Matrix[T]) { g.ElementWiseMatrixAdd[T](ctx, a, wrong(""), mask, m) })
		case "badmadd", "badmaddc":
			bad(own(), func(m g.Matrix[T]) { a.Add(wrong(o.K)) })
		case "badmsub", "badmsubc":
			bad(own(), func(m g.Matrix[T]) { a.Subtract(wrong(o.K)) })
		case "badmmul":
			bad(own(), func(m g.Matrix[T]) { a.Multiply(wrong("")) })
		case "badstrassen":
			bad(own(), func(m g.Matrix[T]) { strassen.MultiplyCrossoverPoint(ctx, a, wrong(""), 1) })
		case "badvec":
			bad(ownV(), func(m g.Matrix[T]) {
				g.ElementWiseVectorAdd[T](ctx, v, g.NewSparseVector[T](n+1), vmask, m.(g.Vector[T]))
			})
		case "badvmul":
			bad(ownV(), func(m g.Matrix[T]) {
				g.ElementWiseVectorMultiply[T](ctx, v, g.NewDenseVectorN[T](n+1), vmask, m.(g.Vector[T]))
			})
		case "badmxv":
			bad(ownV(), func(m g.Matrix[T]) {
				g.MatrixVectorMultiply[T](ctx, a, g.NewDenseVectorN[T](n+1), vmask, m.(g.Vector[T]))
			})
		case "badat":
			fmt.Fprint(io.Discard, a.At(o.R, wild(n, o.V)), b.RowsAt(n))
		case "badvat":
			fmt.Fprint(io.Discard, v.AtVec(wild(n, o.V)))
		case "badrow":
			fmt.Fprint(io.Discard, a.RowsAt(wild(n, o.V)))
		case "badcol":
			fmt.Fprint(io.Discard, a.ColumnsAt(wild(n, o.V)))
		case "badarr":
			fmt.Fprint(io.Discard, a.RowsAtToArray(wild(n, o.V)))
		case "badset":
			bad(own(), func(m g.Matrix[T]) { m.Set(wild(n, o.V), o.C, 1) })
		case "badsetc":
			bad(own(), func(m g.Matrix[T]) { m.Set(o.R, wild(n, o.V), 1) })
		case "badupdate":
			bad(own(), func(m g.Matrix[T]) { m.Update(o.R, wild(n, o.V), cu) })
		case "badvset":
			bad(ownV(), func(m g.Matrix[T]) { m.(g.Vector[T]).SetVec(wild(n, o.V), 1) })
		case "badvupdate":
			bad(ownV(), func(m g.Matrix[T]) { m.Update(wild(n, o.V), 0, cu) })
		default:
			resp = "?"
		}
	})
	if c.panicked {
		return fmt.Sprintf("panic: %v", c.val)
	}
	return resp
}

func rdRun[T Num](e *Env, s *rdSpec) {
	want := make([][]string, len(s.P))
	for i := range s.P {
		for k := range s.P[i] {
			o := &s.P[i][k]
			r := ""
			e.quietSim(SimOpts{}, func() { r = newShared[T](s).do(o, nil) })
			want[i] = append(want[i], r)
		}
	}
	d := newShared[T](s)
	got := make([][]string, len(s.P))
	type span struct{ a, b int64 }
	spans := make([][]span, len(s.P))
	for i := range s.P {
		got[i] = make([]string, len(s.P[i]))
		spans[i] = make([]span, len(s.P[i]))
	}
	e.Sim(SimOpts{}, func() {
		var wg sim.WaitGroup
		for i := range s.P {
			i := i
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				for k := range s.P[i] {
					o := &s.P[i][k]
					sim.Yield()
					spans[i][k].a = sim.Seq()
					got[i][k] = d.do(o, nil)
					for n := 1; n < o.N && n < 3 && got[i][k] == want[i][k]; n++ {
						got[i][k] = d.do(o, nil)
					}
					spans[i][k].b = sim.Seq()
				}
			})
		}
		wg.Wait()
	})
	over := false
	for i := range s.P {
		for k := range s.P[i] {
			e.stats.Probes["op:"+s.P[i][k].K]++
			for j := range s.P {
				for l := range s.P[j] {
					if i != j && spans[i][k].a < spans[j][l].b && spans[j][l].a < spans[i][k].b {
						over = true
					}
				}
			}
			if got[i][k] != want[i][k] {
				e.Fail("disturbed", "client %d's call %d (%s) gives %s, and %s alone; matrices %v, vectors %v", i, k, s.P[i][k].K, got[i][k], want[i][k], s.M, s.V)
			}
		}
	}
	if over {
		e.NonTrivial()
		e.Probe("runs with overlapping calls")
	}
	d.unchanged(e, s)
}

// unchanged checks that the shared structures are as they were built.
func (d *shared[T]) unchanged(e *Env, s *rdSpec) {
	quiet(func() {
		d0 := newShared[T](s)
		same := func(name string, a, b g.Matrix[T]) {
			if x, y := readGrid[T](a), readGrid[T](b); !x.eq(y) {
				e.failed("operand-changed", "%s was %v and is %v", name, y, x)
			}
			if a.Values() != b.Values() {
				e.failed("operand-changed", "%s counted %d elements and counts %d", name, b.Values(), a.Values())
			}
			if x, y := enumText[T](a.Enumerate(), a.Rows(), a.Columns()), enumText[T](b.Enumerate(), a.Rows(), a.Columns()); x != y {
				e.failed("operand-changed", "%s enumerated %s and enumerates %s", name, y, x)
			}
		}
		for i := range d.m {
			same(fmt.Sprintf("matrix %d", i), d.m[i], d0.m[i])
		}
		for i := range d.v {
			same(fmt.Sprintf("vector %d", i), d.v[i], d0.v[i])
		}
		same("the mask", d.k, d0.k)
		for i := range d.x {
			if x, y := readRunes(d.x[i]), readRunes(d0.x[i]); !runesEq(x, y) {
				e.failed("operand-changed", "text %d was %q and is %q", i, y, x)
			}
		}
	})
	if e.class != "" {
		panic(stopRun{})
	}
}
