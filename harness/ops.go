package main

import (
	"context"
	"fmt"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/unaryop"
	"verifsim"
)

// opSpec is one operation with an output: its operands, mask and output.
type opSpec struct {
	K     string `json:"k"`
	A     Mat    `json:"a"`
	B     Mat    `json:"b"`
	O     Mat    `json:"out"`
	Alias string `json:"alias,omitempty"` // "a", "b": the output is that operand; "ab": both operands are one; "all"
	Mask  string `json:"mask,omitempty"`  // "", "empty", "matrix", or "a", "b": that operand
	M     Mat    `json:"m"`
	U     int    `json:"u"`           // which unary operator, or the scalar
	Z     bool   `json:"z,omitempty"` // a product with no inner elements
}

var outOps = []string{"mxm", "mxm", "mxv", "vxm", "ewmm", "ewvm", "add", "add", "sub", "sub", "ewma", "ewva", "apply", "apply", "neg", "trans", "trans"}
var newOps = []string{"scalar", "tcsr", "tcsc"}

func isNew(k string) bool { return k == "scalar" || k == "tcsr" || k == "tcsc" }

func anyFormat(r *sim.Rng) string { return pick(r, formats) }

// genOp makes an operation; max bounds the sides.
func genOp(r *sim.Rng, kinds []string, max int) opSpec {
	o := opSpec{K: pick(r, kinds), U: r.Intn(8)}
	d := func() int { return 1 + r.Intn(max) }
	// sizes rarely reached: long and thin
	long := max >= 4 && r.Intn(200) == 0
	if long {
		q := max
		max = 70
		d = func() int {
			if r.Intn(2) == 0 {
				return 17 + r.Intn(54)
			}
			return 1 + r.Intn(min(3, q))
		}
	}
	de := func() int { return []int{3, 3, 5, 5, 8, 8, 10, 10, 0}[r.Intn(9)] }
	fm := func() string { return pick(r, matFormats) }
	fa := func() string {
		if r.Intn(4) == 0 {
			return pick(r, vecFormats)
		}
		return fm()
	}
	o.A = genMat(r, fa(), d(), d(), de())
	if long {
		a, b := 17+r.Intn(54), 1+r.Intn(3)
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		o.A.resize(a, b)
	}
	o.B = genMat(r, fa(), d(), d(), de())
	o.O = genMat(r, fa(), d(), d(), de())
	o.Z = r.Intn(25) == 0
	if r.Intn(3) == 0 {
		o.Alias = []string{"a", "b", "ab", "all"}[r.Intn(4)]
	}
	switch r.Intn(3) {
	case 0:
		o.Mask = "matrix"
		o.M = genMat(r, fa(), d(), d(), 4)
	case 1:
		if r.Intn(3) == 0 {
			o.Mask = "empty"
		} else if r.Intn(3) == 0 {
			o.Mask = []string{"a", "b"}[r.Intn(2)]
		}
	}
	if max >= 4 && r.Intn(1000) == 0 {
		max = 1200
		a, b, w := vast(r), 1+r.Intn(2), 1+r.Intn(2)
		if o.K == "ewmm" || o.K == "ewma" {
			a, b = 33+r.Intn(6), 33
		}
		o.A.R, o.A.C, o.B.R, o.B.C = a, b, b, w
		if r.Intn(2) == 0 {
			o.A.R, o.A.C = b, a
		}
	}
	o.norm(max)
	// elements again, now that the sizes are settled
	for _, m := range []*Mat{&o.A, &o.B, &o.O, &o.M} {
		if m.F != "" {
			den := de()
			if m == &o.M {
				den = 4
			}
			*m = genMat(r, m.F, m.R, m.C, den)
		}
	}
	o.norm(max)
	return o
}

func mkVec(m *Mat) {
	if m.F == "csr" || m.F == "csc" || m.F == "svec" {
		m.F = "svec"
	} else {
		m.F = "dvec"
	}
}

func mkMat(m *Mat) {
	if m.F == "svec" {
		m.F = "csr"
	} else if m.F == "dvec" {
		m.F = "dense"
	}
}

// norm makes the sizes and formats fit the operation.
func (o *opSpec) norm(max int) {
	if o.Mask == "matrix" && o.M.F == "" {
		o.M.F = "dense"
	}
	for _, m := range []*Mat{&o.A, &o.B, &o.O, &o.M} {
		m.norm()
		m.R, m.C = clamp(m.R, 1, max), clamp(m.C, 1, max)
	}
	switch o.K {
	case "mxm":
		mkMat(&o.A)
		if o.Alias == "a" || o.Alias == "b" || o.Alias == "all" || o.Alias == "ab" {
			mkMat(&o.B)
			mkMat(&o.O)
			o.A.R = min(o.A.R, o.A.C)
			o.A.C = o.A.R
			o.B.resize(o.A.C, o.A.C)
		}
		o.B.R = o.A.C
		o.O.resize(o.A.R, o.B.C)
		if o.O.isVec() && o.B.C != 1 {
			mkMat(&o.O)
			o.O.resize(o.A.R, o.B.C)
		}
		if o.Z && o.Alias == "" && !o.B.isVec() {
			o.A.C, o.B.R = 0, 0
		}
	case "mxv", "vxm":
		mkMat(&o.A)
		mkVec(&o.B)
		mkVec(&o.O)
		if o.Alias == "a" || o.Alias == "all" || o.Alias == "ab" {
			o.Alias = ""
		}
		if o.Alias == "b" {
			o.A.R = min(o.A.R, o.A.C)
			o.A.C = o.A.R
		}
		o.B.resize(o.A.C, 1)
		o.O.resize(o.A.R, 1)
	case "ewmm", "ewma":
		mkMat(&o.A)
		mkMat(&o.B)
		mkMat(&o.O)
		o.A.R = min(o.A.R, o.A.C)
		o.A.C = o.A.R
		o.B.resize(o.A.R, o.A.R)
		o.O.resize(o.A.R, o.A.R)
	case "ewvm", "ewva":
		mkVec(&o.A)
		mkVec(&o.B)
		mkVec(&o.O)
		o.A.norm()
		o.B.resize(o.A.R, 1)
		o.O.resize(o.A.R, 1)
	case "trans", "tcsr", "tcsc":
		o.Alias = ""
		if o.O.isVec() && o.A.R != 1 {
			mkMat(&o.O)
		}
		o.A.norm()
		o.O.resize(o.A.C, o.A.R)
	default:
		switch o.K {
		case "add", "sub", "apply", "neg", "scalar":
		default:
			o.K = "apply"
		}
		o.A.norm()
		fit := func(m *Mat) {
			if m.isVec() && o.A.C != 1 {
				mkMat(m)
			}
			m.resize(o.A.R, o.A.C)
		}
		fit(&o.B)
		fit(&o.O)
		if (o.K == "apply" || o.K == "neg" || o.K == "scalar") && o.Alias != "a" {
			o.Alias = ""
		}
		if o.K == "neg" || o.K == "scalar" {
			o.Alias = ""
		}
	}
	if isNew(o.K) {
		o.Mask = ""
	}
	out := o.O
	if o.Alias == "a" || o.Alias == "all" {
		out = o.A
	} else if o.Alias == "b" {
		out = o.B
	}
	// an operand may be the mask when it is not also the output
	if in := map[string]*Mat{"a": &o.A, "b": &o.B}[o.Mask]; in != nil {
		bad := in.R != out.R || in.C != out.C || o.Alias == o.Mask || o.Alias == "all"
		if o.Mask == "b" && (o.K == "apply" || o.K == "neg" || o.K == "trans") {
			bad = true
		}
		if bad {
			o.Mask = ""
		}
	}
	if o.Mask == "matrix" {
		if o.M.isVec() && out.C != 1 {
			mkMat(&o.M)
		}
		o.M.resize(out.R, out.C)
	} else {
		o.M = Mat{F: "dense", R: 1, C: 1}
	}
}

// opInst is the operation on live structures.
type opInst[T Num] struct {
	o         *opSpec
	a, b, out g.Matrix[T]
	mask      g.Mask
	u         unaryop.UnaryOp[T]
	before    []*grid[T] // a, b, mask matrix
	old       *grid[T]   // output before
	maskM     g.Matrix[T]
	wrapA     func(g.Matrix[T]) g.Matrix[T]
}

func unary[T Num](k int) func(T) T {
	switch mod(k, 4) {
	case 0:
		return func(v T) T { return v*2 + 1 }
	case 1:
		// removes some
		return func(v T) T {
			if int(v)%2 != 0 {
				return 0
			}
			return v + 3
		}
	case 2:
		return func(v T) T { return 0 - v }
	}
	return func(v T) T { return v * v }
}

func newOp[T Num](o *opSpec) *opInst[T] {
	x := &opInst[T]{o: o}
	x.a = build[T](o.A)
	x.b = build[T](o.B)
	switch o.Alias {
	case "a":
		x.out = x.a
	case "b":
		x.out = x.b
	case "ab":
		x.b = x.a
		x.out = build[T](o.O)
	case "all":
		x.b = x.a
		x.out = x.a
	default:
		x.out = build[T](o.O)
	}
	switch o.Mask {
	case "matrix":
		x.maskM = build[T](o.M)
		x.mask = x.maskM
	case "a":
		x.maskM, x.mask = x.a, x.a
	case "b":
		x.maskM, x.mask = x.b, x.b
	case "empty":
		x.mask = g.NewEmptyMask(x.out.Rows(), x.out.Columns())
	}
	x.u = unaryop.NewUnaryOp(unary[T](o.U))
	x.note()
	return x
}

// note remembers the contents before the operation.
func (x *opInst[T]) note() {
	x.before = []*grid[T]{readGrid[T](x.a), readGrid[T](x.b)}
	if x.maskM != nil {
		x.before = append(x.before, readGrid[T](x.maskM))
	}
	switch x.o.K {
	case "scalar":
		x.old = x.before[0]
	case "tcsr", "tcsc":
		x.old = newGrid[T](x.o.A.C, x.o.A.R)
	default:
		x.old = readGrid[T](x.out)
	}
}

func (x *opInst[T]) run(ctx context.Context) {
	o := x.o
	switch o.K {
	case "mxm":
		g.MatrixMatrixMultiply[T](ctx, x.a, x.b, x.mask, x.out)
	case "mxv":
		g.MatrixVectorMultiply[T](ctx, x.a, x.b.(g.Vector[T]), x.mask, x.out.(g.Vector[T]))
	case "vxm":
		g.VectorMatrixMultiply[T](ctx, x.b.(g.Vector[T]), x.a, x.mask, x.out.(g.Vector[T]))
	case "ewmm":
		g.ElementWiseMatrixMultiply[T](ctx, x.a, x.b, x.mask, x.out)
	case "ewvm":
		g.ElementWiseVectorMultiply[T](ctx, x.a.(g.Vector[T]), x.b.(g.Vector[T]), x.mask, x.out.(g.Vector[T]))
	case "add":
		g.Add[T](ctx, x.a, x.b, x.mask, x.out)
	case "sub":
		g.Subtract[T](ctx, x.a, x.b, x.mask, x.out)
	case "ewma":
		g.ElementWiseMatrixAdd[T](ctx, x.a, x.b, x.mask, x.out)
	case "ewva":
		g.ElementWiseVectorAdd[T](ctx, x.a.(g.Vector[T]), x.b.(g.Vector[T]), x.mask, x.out.(g.Vector[T]))
	case "apply":
		g.Apply[T](ctx, x.a, x.mask, x.u, x.out)
	case "neg":
		g.Negative[T](ctx, x.a, x.mask, x.out)
	case "trans":
		g.Transpose[T](ctx, x.a, x.mask, x.out)
	case "scalar":
		x.out = g.Scalar[T](ctx, x.a, num[T](x.o.U))
	case "tcsr":
		x.out = g.TransposeToCSR[T](ctx, x.a)
	case "tcsc":
		x.out = g.TransposeToCSC[T](ctx, x.a)
	}
}

// operandsChanged says which operand that is not the output was changed.
func (x *opInst[T]) operandsChanged() string {
	names := []string{"first operand", "second operand", "mask"}
	for i, m := range []g.Matrix[T]{x.a, x.b, x.maskM} {
		if m == nil || m == x.out && !isNew(x.o.K) {
			continue
		}
		if now := readGrid[T](m); !now.eq(x.before[i]) {
			return fmt.Sprintf("the %s was %v and is %v", names[i], x.before[i], now)
		}
	}
	return ""
}

// allowed says whether the cell i of the output may hold v when the operation
// was interrupted.
func (x *opInst[T]) allowed(i int, v T, final *grid[T]) bool {
	if v == x.old.v[i] || v == final.v[i] {
		return true
	}
	if (x.o.K == "ewma" || x.o.K == "ewva") && v == x.before[0].v[i] && !x.masked(i) {
		return true
	}
	return false
}

func (x *opInst[T]) masked(i int) bool {
	return x.maskM != nil && x.before[2].v[i] > 0
}

// checkCells compares an interrupted output with before and after.
func (x *opInst[T]) checkCells(final *grid[T]) string {
	if x.out == nil {
		return "no output"
	}
	now := readGrid[T](x.out)
	if now.r != final.r || now.c != final.c {
		return fmt.Sprintf("the output is %dx%d instead of %dx%d", now.r, now.c, final.r, final.c)
	}
	for i, v := range now.v {
		if !x.allowed(i, v, final) {
			return fmt.Sprintf("cell (%d,%d) holds %v; it held %v before and the whole operation leaves %v", i/now.c, i%now.c, v, x.old.v[i], final.v[i])
		}
		if x.masked(i) && v != x.old.v[i] {
			return fmt.Sprintf("cell (%d,%d), protected by the mask, held %v and holds %v", i/now.c, i%now.c, x.old.v[i], v)
		}
	}
	return ""
}

// changed counts the cells that differ from before.
func (x *opInst[T]) changed() int {
	now := readGrid[T](x.out)
	n := 0
	for i, v := range now.v {
		if v != x.old.v[i] {
			n++
		}
	}
	return n
}
