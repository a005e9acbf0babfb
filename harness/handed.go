package main

import (
	"fmt"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/unaryop"
	"verifsim"
)

// handed: what matrices, vectors and operations hand out is taken over by
// goroutines of its own, which read, change and hand on while the structure it
// came from is changed as well; nobody locks (C20).

type hdStep struct {
	K string   `json:"k"`
	R int      `json:"r"`
	C int      `json:"c"`
	V int      `json:"v"`
	Y int      `json:"y"`             // turns given away before
	S []hdStep `json:"sub,omitempty"` // what the new owner does
}

type hdSpec struct {
	T string     `json:"type"`
	M []Mat      `json:"matrices"`
	P [][]hdStep `json:"owners"`
}

type handedOut struct{}

var hdMut = []string{"set", "set", "zero", "update", "clear", "map", "apply"}
var hdHand = []string{"copy", "copy", "row", "col", "arr", "trans", "neg", "scalar", "add", "sub", "mul", "tcsr", "tcsc", "gscalar", "strassen", "m2v", "copylog"}

func isHand(k string) bool {
	for _, x := range hdHand {
		if x == k {
			return true
		}
	}
	return false
}

func (handedOut) New() any { return &hdSpec{} }

func hdGen(r *sim.Rng, depth int, left *int) (l []hdStep) {
	for k := 1 + r.Intn(4); k > 0; k-- {
		x := hdStep{K: "read", R: r.Intn(4), C: r.Intn(4), V: r.Intn(9) - 2, Y: r.Intn(10)}
		switch q := r.Intn(10); {
		case q < 4 && depth < 4 && *left > 0:
			*left--
			x.K = pick(r, hdHand)
			x.S = hdGen(r, depth+1, left)
		case q < 9:
			x.K = pick(r, hdMut)
		}
		l = append(l, x)
	}
	return
}

func (handedOut) Gen(r *sim.Rng, e *Env) any {
	s := &hdSpec{T: pickType(r)}
	left := 7
	for i := r.Intn(2); i >= 0; i-- {
		a, b := shape(r, 4)
		s.M = append(s.M, genMat(r, pick(r, formats), min(a, 80), min(b, 80), density(r)))
		p := hdGen(r, 0, &left)
		if r.Intn(2) == 0 {
			// something is handed out before the first change
			p = append([]hdStep{{K: pick(r, hdHand), R: r.Intn(4), C: r.Intn(4), V: 2, S: hdGen(r, 2, &left)}}, p...)
		}
		s.P = append(s.P, p)
	}
	return s
}

func (handedOut) Run(e *Env, spec any) {
	s := spec.(*hdSpec)
	if len(s.M) == 0 {
		s.M = []Mat{{F: "dense", R: 1, C: 1}}
	}
	s.M = s.M[:min(len(s.M), 3)]
	for i := range s.M {
		s.M[i].norm()
		s.M[i].R, s.M[i].C = clamp(s.M[i].R, 1, 80), clamp(s.M[i].C, 1, 80)
		if s.M[i].R*s.M[i].C > 1300 {
			s.M[i].R, s.M[i].C = min(s.M[i].R, 14), min(s.M[i].C, 14)
		}
	}
	if len(s.P) > len(s.M) {
		s.P = s.P[:len(s.M)]
	}
	switch s.T {
	case "float64":
		hdRun[float64](e, s)
	case "int8":
		hdRun[int8](e, s)
	case "uint16":
		hdRun[uint16](e, s)
	default:
		hdRun[int](e, s)
	}
}

// hdObj is a structure with its owner's log.
type hdObj[T Num] struct {
	path string
	m    g.MatrixLogical[T]
	arr  []T
	opd  g.Matrix[T] // the operand it was made with
	log  []hdEvent[T]
}

type hdEvent[T Num] struct {
	x     *hdStep
	saw   string    // read
	child *hdObj[T] // handed out
	z     *grid[T]  // its elements, when they are known
}

// operand is an operand of r by c elements, of a kind and format that x says.
func operand[T Num](x *hdStep, r, c int) g.Matrix[T] {
	var m g.Matrix[T]
	switch mod(x.R+x.C, 4) {
	case 0:
		m = g.NewCSRMatrix[T](r, c)
	case 1:
		m = g.NewCSCMatrix[T](r, c)
	default:
		m = g.NewDenseMatrixN[T](r, c)
	}
	kind := mod(x.V, 5)
	for i := 0; i < r; i++ {
		for k := 0; k < c; k++ {
			switch {
			case kind < 3:
				m.Set(i, k, T((i*3+k*5)%4))
			case kind == 3 && i == k:
				// the identity; else nothing at all
				m.Set(i, k, 1)
			}
		}
	}
	return m
}

// hand hands something out; ok is false when the structure cannot.
func (o *hdObj[T]) hand(x *hdStep) (c *hdObj[T], ok bool) {
	if o.m == nil {
		return nil, false
	}
	r, k := mod(x.R, o.m.Rows()), mod(x.C, o.m.Columns())
	c = &hdObj[T]{}
	switch x.K {
	case "row":
		c.m = o.m.RowsAt(r)
		return c, true
	case "col":
		c.m = o.m.ColumnsAt(k)
		return c, true
	case "arr":
		c.arr = o.m.RowsAtToArray(r)
		return c, true
	case "trans":
		c.m = o.m.Transpose()
		return c, true
	case "copylog":
		c.m = o.m.CopyLogical()
		return c, true
	}
	m, is := o.m.(g.Matrix[T])
	if !is {
		return nil, false
	}
	_, vec := o.m.(g.Vector[T])
	switch x.K {
	case "copy":
		c.m = m.Copy()
	case "neg":
		c.m = m.Negative()
	case "scalar":
		c.m = m.Scalar(num[T](x.V))
	case "gscalar":
		c.m = g.Scalar(idleCtx(), m, num[T](x.V))
	case "add":
		c.opd = operand[T](x, m.Rows(), m.Columns())
		c.m = m.Add(c.opd)
	case "sub":
		c.opd = operand[T](x, m.Rows(), m.Columns())
		c.m = m.Subtract(c.opd)
	case "mul", "strassen":
		if vec {
			return nil, false
		}
		if x.K == "mul" {
			n := 2
			if x.C%2 == 0 {
				n = m.Columns()
			}
			c.opd = operand[T](x, m.Columns(), n)
			c.m = m.Multiply(c.opd)
		} else {
			c.opd = operand[T](x, m.Columns(), m.Columns())
			c.m = strassen.MultiplyCrossoverPoint[T](idleCtx(), m, c.opd, 2)
		}
	case "tcsr":
		c.m = g.TransposeToCSR(idleCtx(), m)
	case "tcsc":
		c.m = g.TransposeToCSC(idleCtx(), m)
	case "m2v":
		c.m = g.ReduceMatrixToVector(idleCtx(), m)
	default:
		return nil, false
	}
	return c, true
}

func (o *hdObj[T]) read() string {
	if o.m == nil {
		x := make([]T, len(o.arr))
		for i := range x {
			x[i] = o.arr[i] + 0
			sim.Yield()
		}
		return fmt.Sprint(x)
	}
	return readGrid(o.m).key()
}

// change changes the structure; ok is false when it cannot.
func (o *hdObj[T]) change(x *hdStep) (ok bool) {
	if o.m == nil {
		if len(o.arr) == 0 || x.K != "set" && x.K != "zero" {
			return false
		}
		v := num[T](x.V)
		if x.K == "zero" {
			v = 0
		}
		o.arr[mod(x.R, len(o.arr))] = v
		return true
	}
	r, k := mod(x.R, o.m.Rows()), mod(x.C, o.m.Columns())
	m, is := o.m.(g.Matrix[T])
	switch x.K {
	case "set":
		o.m.Set(r, k, num[T](x.V))
	case "zero":
		o.m.Set(r, k, 0)
	case "update":
		o.m.Update(r, k, func(v T) T { return v*3 + num[T](x.V) })
	case "clear":
		o.m.Clear()
	case "map":
		if !is {
			return false
		}
		for it := m.Map(); it.HasNext(); {
			it.Map(func(r, c int, v T) T { return v * 2 })
		}
	case "apply":
		if !is {
			return false
		}
		g.Apply[T](idleCtx(), m, nil, unaryop.NewUnaryOp(func(v T) T { return v * 3 }), m)
	}
	return true
}

// hdModel does the same to the elements.
func hdModel[T Num](x *hdStep, y *grid[T], arr bool) {
	r, k := mod(x.R, y.r), mod(x.C, y.c)
	if arr {
		r, k = 0, mod(x.R, y.c)
	}
	switch x.K {
	case "set":
		y.set(r, k, num[T](x.V))
	case "zero":
		y.set(r, k, 0)
	case "update":
		y.set(r, k, y.at(r, k)*3+num[T](x.V))
	case "clear":
		for i := range y.v {
			y.v[i] = 0
		}
	case "map":
		for i := range y.v {
			y.v[i] *= 2
		}
	case "apply":
		for i := range y.v {
			y.v[i] *= 3
		}
	}
}

func hdRun[T Num](e *Env, s *hdSpec) {
	var objs []*hdObj[T]
	for i := range s.P {
		objs = append(objs, &hdObj[T]{path: fmt.Sprint("structure ", i), m: build[T](s.M[i])})
	}
	tasks := 0
	e.Sim(SimOpts{}, func() {
		var wg sim.WaitGroup
		var own func(o *hdObj[T], p []hdStep, depth int)
		own = func(o *hdObj[T], p []hdStep, depth int) {
			defer wg.Done()
			for i := range p {
				if i > 12 {
					break
				}
				x := &p[i]
				for y := 0; y < x.Y && y < 40; y++ {
					sim.Yield()
				}
				switch {
				case x.K == "read":
					o.log = append(o.log, hdEvent[T]{x: x, saw: o.read()})
				case isHand(x.K):
					if hdCount(&tasks, 0) > 14 || depth > 5 {
						continue
					}
					if c, ok := o.hand(x); ok {
						hdCount(&tasks, 1)
						c.path = fmt.Sprintf("%s, %s(%d,%d;%d) of %s", "the result", x.K, x.R, x.C, x.V, o.path)
						o.log = append(o.log, hdEvent[T]{x: x, child: c})
						wg.Add(1)
						if w := c.opd; w != nil {
							// its operand has an owner too
							d := &hdObj[T]{path: "the operand of " + c.path, m: w}
							o.log = append(o.log, hdEvent[T]{x: &hdStep{K: "operand"}, child: d, z: readGrid[T](w)})
							wg.Add(1)
							sim.Spawn(func() { own(d, []hdStep{{K: "set", R: x.C, C: x.R, V: 5, Y: x.Y}, {K: "read", Y: 3}}, depth+1) })
						}
						sim.Spawn(func() { own(c, x.S, depth+1) })
					}
				default:
					if o.change(x) {
						o.log = append(o.log, hdEvent[T]{x: x})
					}
				}
			}
		}
		for i := range objs {
			wg.Add(1)
			i := i
			sim.Spawn(func() { own(objs[i], s.P[i], 0) })
		}
		wg.Wait()
		// once more when all are done
		var last func(o *hdObj[T])
		last = func(o *hdObj[T]) {
			for _, ev := range o.log {
				if ev.child != nil {
					last(ev.child)
				}
			}
			o.log = append(o.log, hdEvent[T]{x: &hdStep{K: "read"}, saw: o.read()})
		}
		for _, o := range objs {
			last(o)
		}
	})
	var check func(o *hdObj[T], y *grid[T])
	check = func(o *hdObj[T], y *grid[T]) {
		did := ""
		for _, ev := range o.log {
			switch {
			case ev.child != nil:
				e.Probe("handed out: " + ev.x.K)
				e.NonTrivial()
				z := ev.z
				if z == nil {
					z = hdResult(o, y, ev.x)
				}
				if z == nil {
					e.Fail("panic", "%s panics on fresh elements", ev.child.path)
				}
				check(ev.child, z)
			case ev.x.K == "read":
				want := y.key()
				if o.m == nil {
					l := make([]T, len(y.v))
					for i := range l {
						l[i] = y.v[i] + 0
					}
					want = fmt.Sprint(l)
				}
				if ev.saw != want {
					e.Fail("not-private", "%s, on which its owner did%s, shows %s instead of %s", o.path, did, ev.saw, want)
				}
			default:
				hdModel(ev.x, y, o.m == nil)
				did += fmt.Sprintf(" %s(%d,%d;%d)", ev.x.K, ev.x.R, ev.x.C, ev.x.V)
			}
		}
	}
	for i, o := range objs {
		check(o, cells[T](s.M[i]))
	}
}

//go:norace
func hdCount(n *int, d int) int {
	*n += d
	return *n
}

// hdResult is what is handed out by a fresh structure with elements y.
func hdResult[T Num](o *hdObj[T], y *grid[T], x *hdStep) (z *grid[T]) {
	r, k := mod(x.R, y.r), mod(x.C, y.c)
	switch x.K {
	case "row", "arr":
		z = newGrid[T](y.c, 1)
		for i := range z.v {
			z.v[i] = y.at(r, i)
		}
		if x.K == "arr" {
			z.r, z.c = 1, y.c
		}
		return
	case "col":
		z = newGrid[T](y.r, 1)
		for i := range z.v {
			z.v[i] = y.at(i, k)
		}
		return
	case "copy", "copylog":
		return y.clone()
	case "trans", "tcsr", "tcsc":
		z = newGrid[T](y.c, y.r)
		for i := 0; i < y.r; i++ {
			for j := 0; j < y.c; j++ {
				z.set(j, i, y.at(i, j))
			}
		}
		return
	}
	quiet(func() {
		f := &hdObj[T]{m: fromGrid(formatOf(o.m.(g.Matrix[T])), y)}
		try(func() {
			if c, ok := f.hand(x); ok {
				z = readGrid(c.m)
			}
		})
	})
	return
}
