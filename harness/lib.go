package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	g "github.com/rossmerr/graphblas"
	"verifsim"
)

// Num is the element types the workloads use.
type Num interface {
	int | int8 | uint16 | float64 | int64 | uint32
}

var elemTypes = []string{"int", "float64", "int8", "uint16"}

func pickType(r *sim.Rng) string { return elemTypes[r.Intn(len(elemTypes))] }

// Mat describes a matrix or vector: its format, size and elements.
type Mat struct {
	F string   `json:"f"` // dense, csr, csc, dvec, svec
	R int      `json:"r"`
	C int      `json:"c"`
	E [][3]int `json:"e"`             // row, column, value
	H [][3]int `json:"h,omitempty"`   // written and erased before E: leaves a history in the storage
	A bool     `json:"arr,omitempty"` // made from an array
}

// num is the element a workload's value stands for: the value itself, for
// some values one that needs all the bits of the type.
func num[T Num](v int) T {
	x := T(0)
	switch p := any(&x).(type) {
	case *float64:
		switch v {
		case 5:
			*p = 0.25
		case 7:
			*p = 7.5
		case -3:
			*p = -0.5
		case 60001:
			*p = math.NaN()
		case 60002:
			*p = math.Inf(1)
		case 60003:
			*p = math.Inf(-1)
		default:
			*p = float64(v)
		}
	case *int64:
		*p = int64(bits(v))
	case *int:
		*p = bits(v)
	default:
		x = T(v)
	}
	return x
}

func bits(v int) int {
	switch v {
	case 1001:
		return 1<<53 + 1
	case 1002:
		return -1<<62 - 3
	}
	return v
}

func (m Mat) isVec() bool    { return m.F == "dvec" || m.F == "svec" }
func (m Mat) isSparse() bool { return m.F == "csr" || m.F == "csc" || m.F == "svec" }

func clamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func mod(v, n int) int {
	if n <= 0 {
		return 0
	}
	v %= n
	if v < 0 {
		v += n
	}
	return v
}

var formats = []string{"dense", "csr", "csc", "dvec", "svec"}

// norm makes any decoded description valid.
func (m *Mat) norm() {
	ok := false
	for _, f := range formats {
		if m.F == f {
			ok = true
		}
	}
	if !ok {
		m.F = "dense"
	}
	m.R = clamp(m.R, 1, 1200)
	m.C = clamp(m.C, 1, 1200)
	if m.isVec() {
		m.C = 1
	}
}

func (m *Mat) resize(r, c int) {
	m.R, m.C = r, c
	m.norm()
}

// cells gives the elements the description asks for; later entries win.
func cells[T Num](m Mat) *grid[T] {
	x := newGrid[T](m.R, m.C)
	for _, e := range m.E {
		if m.R == 0 || m.C == 0 {
			break
		}
		x.v[mod(e[0], m.R)*m.C+mod(e[1], m.C)] = num[T](e[2])
	}
	return x
}

func empty[T Num](f string, r, c int) g.Matrix[T] {
	switch f {
	case "csr":
		return g.NewCSRMatrix[T](r, c)
	case "csc":
		return g.NewCSCMatrix[T](r, c)
	case "dvec":
		return g.NewDenseVectorN[T](r)
	case "svec":
		return g.NewSparseVector[T](r)
	}
	return g.NewDenseMatrixN[T](r, c)
}

// build makes the matrix described.
func build[T Num](m Mat) g.Matrix[T] {
	if m.A && m.R > 0 && m.C > 0 {
		return fromArray(m.F, cells[T](m))
	}
	x := empty[T](m.F, m.R, m.C)
	if m.R == 0 || m.C == 0 {
		return x
	}
	for _, e := range m.H {
		x.Set(mod(e[0], m.R), mod(e[1], m.C), num[T](e[2]))
	}
	for _, e := range m.H {
		x.Set(mod(e[0], m.R), mod(e[1], m.C), 0)
	}
	for _, e := range m.E {
		x.Set(mod(e[0], m.R), mod(e[1], m.C), num[T](e[2]))
	}
	return x
}

// fromArray makes the matrix with the constructor that takes an array.
func fromArray[T Num](f string, x *grid[T]) g.Matrix[T] {
	rows := make([][]T, x.r)
	for i := range rows {
		rows[i] = append([]T(nil), x.v[i*x.c:(i+1)*x.c]...)
	}
	switch f {
	case "csr":
		return g.NewCSRMatrixFromArray(rows)
	case "csc":
		return g.NewCSCMatrixFromArray(rows)
	case "dvec":
		return g.NewDenseVectorFromArrayN(x.v)
	case "svec":
		return g.NewSparseVectorFromArray(x.v)
	}
	return g.NewDenseMatrixFromArrayN(rows)
}

// fromGrid makes a fresh matrix of the format with the elements.
func fromGrid[T Num](f string, x *grid[T]) g.Matrix[T] {
	m := empty[T](f, x.r, x.c)
	for r := 0; r < x.r; r++ {
		for c := 0; c < x.c; c++ {
			if v := x.at(r, c); v != 0 {
				m.Set(r, c, v)
			}
		}
	}
	return m
}

// grid is the model of a matrix.
type grid[T Num] struct {
	r, c int
	v    []T
}

func newGrid[T Num](r, c int) *grid[T] { return &grid[T]{r, c, make([]T, r*c)} }

func (x *grid[T]) at(r, c int) T     { return x.v[r*x.c+c] }
func (x *grid[T]) set(r, c int, v T) { x.v[r*x.c+c] = v }
func (x *grid[T]) clone() *grid[T] {
	y := *x
	y.v = append([]T(nil), x.v...)
	return &y
}
func (x *grid[T]) eq(y *grid[T]) bool {
	if x.r != y.r || x.c != y.c {
		return false
	}
	for i := range x.v {
		if !same(x.v[i], y.v[i]) {
			return false
		}
	}
	return true
}

// same compares elements; what is not a number is the same as itself.
func same[T Num](a, b T) bool { return a == b || a != a && b != b }

func (x *grid[T]) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%dx%d", x.r, x.c)
	for _, v := range x.v {
		fmt.Fprintf(&b, " %v", v+0) // no negative zero
	}
	return b.String()
}

func (x *grid[T]) String() string {
	var b strings.Builder
	for r := 0; r < x.r; r++ {
		fmt.Fprintf(&b, "[")
		for c := 0; c < x.c; c++ {
			if c > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(&b, "%v", x.at(r, c)+0)
		}
		fmt.Fprintf(&b, "]")
	}
	return b.String()
}

// readGrid reads every element of a matrix.
func readGrid[T Num](m g.MatrixLogical[T]) *grid[T] {
	x := newGrid[T](m.Rows(), m.Columns())
	for r := 0; r < x.r; r++ {
		for c := 0; c < x.c; c++ {
			x.v[r*x.c+c] = m.At(r, c)
		}
	}
	return x
}

// enumText lists an enumeration: non-zero elements, sorted; what is listed
// twice or out of range shows.
func enumText[T Num](it g.Enumerate[T], rows, cols int) string {
	type cell struct {
		r, c int
		v    T
	}
	var l []cell
	seen := map[[2]int]bool{}
	var odd string
	for n := 0; it.HasNext(); n++ {
		if n > rows*cols+8 {
			odd += " too many elements"
			break
		}
		r, c, v := it.Next()
		if r < 0 || r >= rows || c < 0 || c >= cols {
			odd += fmt.Sprintf(" out of range (%d,%d)=%v", r, c, v)
		}
		if seen[[2]int{r, c}] {
			odd += fmt.Sprintf(" twice (%d,%d)", r, c)
		}
		seen[[2]int{r, c}] = true
		if v != 0 {
			l = append(l, cell{r, c, v})
		}
	}
	sort.Slice(l, func(i, k int) bool {
		if l[i].r != l[k].r {
			return l[i].r < l[k].r
		}
		return l[i].c < l[k].c
	})
	return fmt.Sprint(l) + odd
}

func (x *grid[T]) enumText() string {
	type cell struct {
		r, c int
		v    T
	}
	var l []cell
	for r := 0; r < x.r; r++ {
		for c := 0; c < x.c; c++ {
			if v := x.at(r, c); v != 0 {
				l = append(l, cell{r, c, v})
			}
		}
	}
	return fmt.Sprint(l)
}

// wellFormed says what is wrong with a structure, or "".
func wellFormed[T Num](m g.Matrix[T], sparse bool) string {
	var bad string
	func() {
		defer func() {
			if v := recover(); v != nil {
				bad = fmt.Sprintf("reading it panics: %v", v)
			}
		}()
		x := readGrid[T](m)
		if s := enumText[T](m.Enumerate(), x.r, x.c); s != x.enumText() {
			bad = fmt.Sprintf("enumeration %s, elements %s", s, x.enumText())
			return
		}
		nz := 0
		for _, v := range x.v {
			if v != 0 {
				nz++
			}
		}
		if sparse {
			n := 0
			for it := m.Enumerate(); it.HasNext(); n++ {
				_, _, v := it.Next()
				if v == 0 {
					bad = "a stored zero"
					return
				}
			}
			if n != nz || m.Values() != nz {
				bad = fmt.Sprintf("%d non-zero elements, %d enumerated, counted %d", nz, n, m.Values())
				return
			}
		}
		c := m.Copy()
		if y := readGrid[T](c); !x.eq(y) {
			bad = fmt.Sprintf("a copy differs: %v, copy %v", x, y)
			return
		}
		if s := enumText[T](c.Enumerate(), x.r, x.c); s != x.enumText() {
			bad = fmt.Sprintf("a copy enumerates %s, elements %s", s, x.enumText())
			return
		}
		for r := 0; r < x.r; r++ {
			row := m.RowsAt(r)
			arr := m.RowsAtToArray(r)
			for c := 0; c < x.c; c++ {
				// a vector's row is taken as a column of length one
				if v := row.AtVec(c); v != x.at(r, c) {
					bad = fmt.Sprintf("row %d reads %v at %d, element %v", r, v, c, x.at(r, c))
					return
				}
				if arr[c] != x.at(r, c) {
					bad = fmt.Sprintf("row array %d reads %v at %d, element %v", r, arr[c], c, x.at(r, c))
					return
				}
			}
		}
		for c := 0; c < x.c; c++ {
			col := m.ColumnsAt(c)
			for r := 0; r < x.r; r++ {
				if v := col.AtVec(r); v != x.at(r, c) {
					bad = fmt.Sprintf("column %d reads %v at %d, element %v", c, v, r, x.at(r, c))
					return
				}
			}
		}
	}()
	return bad
}

// ---- generation ---------------------------------------------------------------

// genVal gives small values, zero sometimes, negative sometimes.
func genVal(r *sim.Rng) int {
	switch x := r.Intn(40); x % 8 {
	case 0:
		if x == 0 {
			return []int{300, -300, 1000, 127, 256, 128, 1001, 1002}[r.Intn(8)]
		}
		return -1 - r.Intn(4)
	case 1:
		return 1
	default:
		return 1 + r.Intn(9)
	}
}

// genMat makes a matrix of the size; density in tenths.
func genMat(r *sim.Rng, f string, rows, cols, density int) Mat {
	m := Mat{F: f, R: rows, C: cols, E: [][3]int{}}
	m.norm()
	for i := 0; i < m.R; i++ {
		for k := 0; k < m.C; k++ {
			if r.Intn(10) < density {
				m.E = append(m.E, [3]int{i, k, genVal(r)})
			}
		}
	}
	// the order of insertion shapes compressed storage
	if r.Intn(2) == 0 {
		for i := len(m.E) - 1; i > 0; i-- {
			k := r.Intn(i + 1)
			m.E[i], m.E[k] = m.E[k], m.E[i]
		}
	}
	if r.Intn(8) == 0 {
		m.A = true
	} else if r.Intn(3) == 0 {
		for i := r.Intn(4); i > 0; i-- {
			m.H = append(m.H, [3]int{r.Intn(m.R), r.Intn(m.C), genVal(r)})
		}
	}
	return m
}

// shape is the size of a matrix: usual sides, rarely long ones.
func shape(r *sim.Rng, usual int) (int, int) {
	if r.Intn(250) > 0 {
		return side(r, usual), side(r, usual)
	}
	long, short := 17+r.Intn(60), 1+r.Intn(3)
	switch r.Intn(6) {
	case 0, 1:
		return long, short
	case 2, 3:
		return short, long
	case 4:
		// more than 1024 elements
		return 33 + r.Intn(3), 32 + r.Intn(3)
	}
	return 13 + r.Intn(6), 13 + r.Intn(6)
}

// vast is a length hardly ever reached: beyond the powers of two at which
// code may take another path.
func vast(r *sim.Rng) int {
	return []int{100, 129, 257, 513, 1025}[r.Intn(5)] + r.Intn(60)
}

// side is the length of a side: 1 to usual, rarely a good deal more.
func side(r *sim.Rng, usual int) int {
	switch x := r.Intn(100); {
	case x < 1:
		return usual + 1 + r.Intn(8)
	case x < 5:
		return usual + 1 + r.Intn(4)
	}
	return 1 + r.Intn(usual)
}

var matFormats = []string{"dense", "csr", "csc"}
var vecFormats = []string{"dvec", "svec"}

func pick(r *sim.Rng, l []string) string { return l[r.Intn(len(l))] }

func density(r *sim.Rng) int { return []int{0, 2, 4, 6, 8, 10}[r.Intn(6)] }

// caught runs f and returns what it panicked with.
type caught struct {
	panicked bool
	val      any
}

func try(f func()) (c caught) {
	defer func() {
		if sim.Aborting() {
			return
		}
		if v := recover(); v != nil {
			c = caught{true, v}
		}
	}()
	f()
	return
}

// wild is an index out of the range 0 to n-1; k chooses which.
func wild(n, k int) int {
	k = mod(k, 32)
	switch k % 16 {
	case 0, 1, 2, 3:
		return -1
	case 4, 5, 6, 7:
		return n
	case 8:
		return -2 - k
	case 9:
		return n + 1 + k
	case 10:
		return -n - 1
	case 11:
		return 2 * n
	case 12:
		return n + 1<<16
	case 13:
		return n - 1 + 1<<32
	case 14:
		return math.MinInt
	}
	return math.MaxInt
}
