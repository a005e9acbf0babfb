package main

import (
	g "github.com/rossmerr/graphblas"
	"verifsim"
)

// Storage, wrapped in a locked matrix, that fails when told to: the next
// method the caller's own task calls on it panics before it does anything.

type faultSlot struct {
	path         string
	who          boom
	yields       int
	armed, fired bool
}

type faults struct{ slot [17]faultSlot }

//go:norace
func (f *faults) enter(i int, path string) { f.slot[i] = faultSlot{path: path} }

//go:norace
func (f *faults) arm(i int, who boom, yields int) {
	f.slot[i].who, f.slot[i].yields, f.slot[i].armed, f.slot[i].fired = who, yields, true, false
}

//go:norace
func (f *faults) disarm(i int) (fired bool) {
	f.slot[i].armed = false
	return f.slot[i].fired
}

//go:norace
func (f *faults) due(path string) (who boom, yields int, due bool) {
	for i := range f.slot {
		x := &f.slot[i]
		if x.armed && x.path == path {
			x.armed, x.fired = false, true
			return x.who, x.yields, true
		}
	}
	return
}

type faulty[T Num] struct {
	g.Matrix[T]
	f *faults
}

func (m *faulty[T]) hit() {
	if m.f == nil {
		return
	}
	if who, yields, due := m.f.due(sim.Path()); due {
		for i := 0; i < yields; i++ {
			sim.Yield()
		}
		panic(who)
	}
}

func (m *faulty[T]) Update(r, c int, f func(T) T)       { m.hit(); m.Matrix.Update(r, c, f) }
func (m *faulty[T]) At(r, c int) T                      { m.hit(); return m.Matrix.At(r, c) }
func (m *faulty[T]) Set(r, c int, v T)                  { m.hit(); m.Matrix.Set(r, c, v) }
func (m *faulty[T]) ColumnsAt(c int) g.VectorLogial[T]  { m.hit(); return m.Matrix.ColumnsAt(c) }
func (m *faulty[T]) RowsAt(r int) g.VectorLogial[T]     { m.hit(); return m.Matrix.RowsAt(r) }
func (m *faulty[T]) RowsAtToArray(r int) []T            { m.hit(); return m.Matrix.RowsAtToArray(r) }
func (m *faulty[T]) Copy() g.Matrix[T]                  { m.hit(); return m.Matrix.Copy() }
func (m *faulty[T]) CopyLogical() g.MatrixLogical[T]    { m.hit(); return m.Matrix.CopyLogical() }
func (m *faulty[T]) Scalar(v T) g.Matrix[T]             { m.hit(); return m.Matrix.Scalar(v) }
func (m *faulty[T]) Multiply(x g.Matrix[T]) g.Matrix[T] { m.hit(); return m.Matrix.Multiply(x) }
func (m *faulty[T]) Add(x g.Matrix[T]) g.Matrix[T]      { m.hit(); return m.Matrix.Add(x) }
func (m *faulty[T]) Subtract(x g.Matrix[T]) g.Matrix[T] { m.hit(); return m.Matrix.Subtract(x) }
func (m *faulty[T]) Negative() g.MatrixLogical[T]       { m.hit(); return m.Matrix.Negative() }
func (m *faulty[T]) Transpose() g.MatrixLogical[T]      { m.hit(); return m.Matrix.Transpose() }
func (m *faulty[T]) Equal(x g.MatrixLogical[T]) bool    { m.hit(); return m.Matrix.Equal(x) }
func (m *faulty[T]) NotEqual(x g.MatrixLogical[T]) bool { m.hit(); return m.Matrix.NotEqual(x) }
func (m *faulty[T]) Values() int                        { m.hit(); return m.Matrix.Values() }
func (m *faulty[T]) Clear()                             { m.hit(); m.Matrix.Clear() }
func (m *faulty[T]) Enumerate() g.Enumerate[T]          { m.hit(); return m.Matrix.Enumerate() }
func (m *faulty[T]) Element(r, c int) bool              { m.hit(); return m.Matrix.Element(r, c) }
