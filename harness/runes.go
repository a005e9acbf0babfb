package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	g "github.com/rossmerr/graphblas"
	gsort "github.com/rossmerr/graphblas/sort"
	"verifsim"
)

// character matrices: comparison, rendering and sorting

var runeVals = []rune{0, 'a', 'b', 'c', 'z', 'é', '世', '😀', '！', 1, 'Ⱐ', 0x10FFFF}

func runeOf(v int) rune { return runeVals[mod(v, len(runeVals))] }

// buildRune makes the character matrix described.
func buildRune(m Mat) g.MatrixRune {
	var x g.MatrixRune
	switch m.F {
	case "csr":
		x = g.NewCSRMatrix[rune](m.R, m.C)
	case "csc":
		x = g.NewCSCMatrix[rune](m.R, m.C)
	case "dvec":
		x = g.NewDenseVector[rune](m.R)
	case "svec":
		x = g.NewSparseVector[rune](m.R)
	default:
		x = g.NewDenseMatrix[rune](m.R, m.C)
	}
	for _, e := range m.H {
		x.Set(mod(e[0], m.R), mod(e[1], m.C), 'h')
	}
	for _, e := range m.H {
		x.Set(mod(e[0], m.R), mod(e[1], m.C), 0)
	}
	for _, e := range m.E {
		x.Set(mod(e[0], m.R), mod(e[1], m.C), runeOf(e[2]))
	}
	return x
}

func runeCells(m Mat) [][]rune {
	x := make([][]rune, m.R)
	for i := range x {
		x[i] = make([]rune, m.C)
	}
	for _, e := range m.E {
		x[mod(e[0], m.R)][mod(e[1], m.C)] = runeOf(e[2])
	}
	return x
}

func readRunes(m g.MatrixLogical[rune]) [][]rune {
	x := make([][]rune, m.Rows())
	for i := range x {
		x[i] = make([]rune, m.Columns())
		for k := range x[i] {
			x[i][k] = m.At(i, k)
		}
	}
	return x
}

func runesEq(a, b [][]rune) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// render is the rendering of a matrix: its stored elements in the order of its
// enumeration, which a compressed format makes by rows or by columns.
func render(m Mat) string {
	x := runeCells(m)
	var b strings.Builder
	put := func(v rune) {
		if v != 0 || !m.isSparse() {
			b.WriteRune(v)
		}
	}
	if m.F == "csc" {
		for c := 0; c < m.C; c++ {
			for r := 0; r < m.R; r++ {
				put(x[r][c])
			}
		}
	} else {
		for r := range x {
			for _, v := range x[r] {
				put(v)
			}
		}
	}
	return b.String()
}

func genRune(r *sim.Rng, f string, rows, cols int) Mat {
	m := genMat(r, f, rows, cols, []int{5, 8, 10}[r.Intn(3)])
	few := 2 + r.Intn(len(runeVals)-2)
	for i := range m.E {
		m.E[i][2] = r.Intn(few + 1)
	}
	return m
}

// ---- comparing (C12) -----------------------------------------------------------

type cmpSpec struct {
	K    string `json:"k"`
	T    string `json:"type,omitempty"` // an element type, else characters
	A    Mat    `json:"a"`
	B    Mat    `json:"b"`
	N    int    `json:"n"`
	Task bool   `json:"task"` // cancelled by another task
	Both bool   `json:"both"` // two comparisons at once
	W    int    `json:"wrap,omitempty"`
}

type cmpCancel struct{ wrap bool }

var cmpOps = []string{"equal", "equal", "notequal", "compare", "compare", "less", "greater", "string", "mequal"}

// cmpNum are the comparisons of matrices of numbers.
var cmpNum = []string{"equal", "equal", "equal", "notequal", "mequal", "nila", "nilb", "nils"}

// cmpOperands is a comparison of two matrices.
type cmpOperands struct {
	ask       func(ctx context.Context) any
	unchanged func() string
}

func numOperands[T Num](s *cmpSpec) *cmpOperands {
	a, b := build[T](s.A), build[T](s.B)
	return &cmpOperands{func(ctx context.Context) any {
		switch s.K {
		case "notequal":
			return g.NotEqual[T](ctx, a, b)
		case "mequal":
			return [2]bool{a.Equal(b), a.NotEqual(b)}
		case "nila":
			return g.Equal[T](ctx, nil, b)
		case "nilb":
			return g.Equal[T](ctx, a, nil)
		case "nils":
			return g.Equal[T](ctx, nil, nil)
		}
		return g.Equal[T](ctx, a, b)
	}, func() string {
		if x, y := readGrid[T](a), cells[T](s.A); !x.eq(y) {
			return fmt.Sprintf("its first operand: %v, now %v", y, x)
		}
		if x, y := readGrid[T](b), cells[T](s.B); !x.eq(y) {
			return fmt.Sprintf("its second operand: %v, now %v", y, x)
		}
		return ""
	}}
}

func numEqual[T Num](s *cmpSpec) bool { return cells[T](s.A).eq(cells[T](s.B)) }

func (s *cmpSpec) equal() bool {
	switch s.T {
	case "":
		return runesEq(runeCells(s.A), runeCells(s.B))
	case "float64":
		return numEqual[float64](s)
	case "int8":
		return numEqual[int8](s)
	case "uint16":
		return numEqual[uint16](s)
	}
	return numEqual[int](s)
}

func (s *cmpSpec) operands() *cmpOperands {
	switch s.T {
	case "":
	case "float64":
		return numOperands[float64](s)
	case "int8":
		return numOperands[int8](s)
	case "uint16":
		return numOperands[uint16](s)
	default:
		return numOperands[int](s)
	}
	a, b := buildRune(s.A), buildRune(s.B)
	return &cmpOperands{func(ctx context.Context) any {
		switch s.K {
		case "equal":
			return g.Equal[rune](ctx, a, b)
		case "mequal":
			return [2]bool{a.Equal(b), a.NotEqual(b)}
		case "notequal":
			return g.NotEqual[rune](ctx, a, b)
		case "less":
			return g.Less(ctx, a, b)
		case "greater":
			return g.Greater(ctx, a, b)
		case "string":
			return g.String(ctx, a)
		}
		return g.Compare(ctx, a, b)
	}, func() string {
		if x := readRunes(a); !runesEq(x, runeCells(s.A)) {
			return fmt.Sprintf("its first operand: %q, now %q", runeCells(s.A), x)
		}
		if x := readRunes(b); !runesEq(x, runeCells(s.B)) {
			return fmt.Sprintf("its second operand: %q, now %q", runeCells(s.B), x)
		}
		return ""
	}}
}

func (cmpCancel) New() any { return &cmpSpec{} }
func (h cmpCancel) Gen(r *sim.Rng, e *Env) any {
	s := &cmpSpec{K: pick(r, cmpOps), N: 1 + r.Intn(4), Task: r.Intn(4) == 0, Both: r.Intn(4) == 0}
	if h.wrap {
		s.W = 1 + r.Intn(3)
	}
	rows, cols := shape(r, 4)
	if r.Intn(1000) == 0 {
		rows, cols = vast(r), 1
		if r.Intn(2) == 0 {
			rows, cols = cols, rows
		}
	}
	s.A = genRune(r, pick(r, formats), rows, cols)
	s.B = genRune(r, pick(r, formats), s.A.R, s.A.C)
	if r.Intn(4) == 0 {
		s.K, s.T = pick(r, cmpNum), pickType(r)
		d := density(r)
		s.A = genMat(r, pick(r, formats), rows, cols, d)
		s.B = genMat(r, pick(r, formats), s.A.R, s.A.C, d)
	}
	switch r.Intn(4) {
	case 0: // the same elements
		s.B.E = append([][3]int{}, s.A.E...)
	case 1, 2: // all but one
		s.B.E = append([][3]int{}, s.A.E...)
		s.B.E = append(s.B.E, [3]int{r.Intn(s.A.R), r.Intn(s.A.C), r.Intn(len(runeVals))})
	}
	if s.A.R*s.A.C > 200 && r.Intn(4) > 0 {
		// a large one, its difference far from the beginning
		s.N = 8
		s.B.E = append(append([][3]int{}, s.A.E...), [3]int{s.A.R - 1 - r.Intn(1+s.A.R/8), s.A.C - 1 - r.Intn(1+s.A.C/8), r.Intn(len(runeVals))})
	} else if r.Intn(10) == 0 {
		s.B.R, s.B.C = 1+r.Intn(4), 1+r.Intn(4)
	}
	return s
}

func (cmpCancel) Run(e *Env, spec any) {
	s := spec.(*cmpSpec)
	s.A.norm()
	s.B.norm()
	eq := s.equal()
	show := func() string {
		if s.T != "" {
			return fmt.Sprintf("%s %v and %v", s.T, s.A, s.B)
		}
		return fmt.Sprintf("%s %q and %s %q", s.A.F, runeCells(s.A), s.B.F, runeCells(s.B))
	}
	sa, cmp, three := "", 0, 0
	if s.T == "" {
		sa = render(s.A)
		cmp = strings.Compare(sa, render(s.B))
		three = cmp
		if eq {
			three = 0
		} else if cmp == 0 {
			three = 1 // neither equal nor less
		}
	}
	truth := map[string]any{"equal": eq, "notequal": !eq, "less": cmp < 0, "greater": cmp > 0, "string": sa,
		"mequal": [2]bool{eq, !eq}, "nila": false, "nilb": false, "nils": true}[s.K]
	if truth == nil {
		truth = three
	}
	unchanged := func(x *cmpOperands) {
		if t := x.unchanged(); t != "" {
			e.Fail("operand-changed", "%s changed %s", s.K, t)
		}
	}
	var got any
	var x *cmpOperands
	res := e.Sim(SimOpts{Quiet: true}, func() {
		x = s.operands()
		ctx := wrapCtx(newCtx(), s.W)
		sim.Yield()
		got = x.ask(ctx)
	})
	if got != truth {
		e.Fail("wrong-answer", "%s of %s is %v and was answered %v", s.K, show(), truth, got)
	}
	unchanged(x)
	steps := res.TaskSteps["0"]
	for k := 0; k < clamp(s.N, 1, 8); k++ {
		at := int64(e.Choose(int(steps) + 1))
		if e.Choose(12) == 0 {
			at = 0
		}
		var box ctxBox
		var cancelled bool
		var got, got2 any
		o := SimOpts{Quiet: !s.Task && !s.Both}
		if !s.Task && at > 0 {
			o.Faults = []sim.Fault{{T: "0", N: at, Name: "cancel"}}
			o.Handlers = map[string]func(string){"cancel": box.strike}
		}
		e.Sim(o, func() {
			x = s.operands()
			ctx := box.set(newCtx())
			w := wrapCtx(ctx, s.W)
			var ended once
			if at == 0 {
				ctx.Cancel()
			} else if s.Task {
				sim.Spawn(func() {
					for i := int64(0); i < at && !ended.get(); i += 5 {
						sim.Yield()
					}
					ctx.Cancel()
				})
			}
			var wg sim.WaitGroup
			if s.Both {
				wg.Add(1)
				sim.Spawn(func() {
					defer wg.Done()
					got2 = x.ask(idleCtx())
				})
			}
			sim.Yield()
			got = x.ask(w)
			ended.set()
			cancelled = ctx.Struck()
			wg.Wait()
		})
		unchanged(x)
		if s.Both && got2 != truth {
			e.Fail("wrong-answer", "%s is %v and was answered %v while another comparison ran", s.K, truth, got2)
		}
		if !cancelled {
			if got != truth {
				e.Fail("wrong-answer", "%s is %v and was answered %v", s.K, truth, got)
			}
			continue
		}
		e.NonTrivial()
		e.Probe("cancelled during or before the call")
		lie := false
		switch s.K {
		case "mequal", "nila", "nilb":
			lie = got != truth
		case "equal", "less", "greater":
			lie = got == true && truth == false
		case "compare":
			lie = got != truth && got != 0
		case "string":
			lie = !strings.HasPrefix(sa, got.(string))
			if got != truth && got != "" {
				e.Probe("cut in the middle")
			}
		}
		if got == truth {
			e.Probe("answered though cancelled")
		}
		if lie {
			e.Fail("false-answer", "%s of %s, cancelled at step %d of %d, answered %v; the truth is %v", s.K, show(), at, steps, got, truth)
		}
	}
}

// ---- sorting (C13) -------------------------------------------------------------

type sortSpec struct {
	A    Mat   `json:"a"`
	Col  bool  `json:"columns"`
	At   []int `json:"at"`   // for each sort running at once, per mille of a whole sort at which it is cancelled; 1000: never
	Runs int   `json:"runs"` // repetitions
	W    int   `json:"wrap,omitempty"`
}

type sortCancel struct{ wrap bool }

func (sortCancel) New() any { return &sortSpec{} }
func (h sortCancel) Gen(r *sim.Rng, e *Env) any {
	s := &sortSpec{Col: r.Intn(2) == 0, Runs: 1}
	if h.wrap {
		s.W = 1 + r.Intn(3)
	}
	rows, cols := shape(r, 5)
	if rows > 40 || cols > 40 {
		// sorting many lines takes long
		if s.Col {
			cols = min(cols, 4)
			rows = min(rows, 70)
		} else {
			rows = min(rows, 4)
		}
	}
	s.A = genRune(r, pick(r, formats), rows, cols)
	for n := []int{1, 1, 1, 2, 3}[r.Intn(5)]; n > 0; n-- {
		at := r.Intn(1000)
		if r.Intn(4) == 0 {
			at = 1000
		}
		s.At = append(s.At, at)
	}
	return s
}

func doSort(ctx context.Context, col bool, a g.MatrixRune) g.MatrixRune {
	if col {
		return gsort.BubbleColumns(ctx, a)
	}
	return gsort.BubbleRow(ctx, a)
}

// lines gives the rows, or the columns, as text: whole, and as rendered.
func lines(m Mat, x [][]rune, col bool) (whole, rendered []string) {
	n := len(x)
	if col {
		n = len(x[0])
	}
	for i := 0; i < n; i++ {
		var l []rune
		if col {
			for r := range x {
				l = append(l, x[r][i])
			}
		} else {
			l = x[i]
		}
		w, d := "", ""
		for _, v := range l {
			w += string(v)
			if v != 0 || !m.isSparse() {
				d += string(v)
			}
		}
		whole = append(whole, w)
		rendered = append(rendered, d)
	}
	return
}

func (sortCancel) Run(e *Env, spec any) {
	s := spec.(*sortSpec)
	s.A.norm()
	s.A.R, s.A.C = min(s.A.R, 80), min(s.A.C, 80)
	if len(s.At) == 0 {
		s.At = []int{1000}
	}
	if len(s.At) > 4 {
		s.At = s.At[:4]
	}
	in := runeCells(s.A)
	inWhole, _ := lines(s.A, in, s.Col)
	sort.Strings(inWhole)
	check := func(out g.MatrixRune, cancelled bool) {
		x := readRunes(out)
		if len(x) != s.A.R || len(x[0]) != s.A.C {
			e.Fail("shape", "the sorted matrix is %dx%d instead of %dx%d", len(x), len(x[0]), s.A.R, s.A.C)
		}
		w, d := lines(s.A, x, s.Col)
		p := append([]string{}, w...)
		sort.Strings(p)
		if strings.Join(p, "|") != strings.Join(inWhole, "|") {
			e.Fail("not-permutation", "sorting (columns %v, cancelled %v) a %s matrix %q gave %q", s.Col, cancelled, s.A.F, in, x)
		}
		if !cancelled && !sort.StringsAreSorted(d) {
			e.Fail("not-sorted", "sorting (columns %v) a %s matrix %q gave %q", s.Col, s.A.F, in, x)
		}
	}
	var a, out g.MatrixRune
	res := e.Sim(SimOpts{Quiet: true}, func() {
		a = buildRune(s.A)
		out = doSort(wrapCtx(newCtx(), s.W), s.Col, a)
	})
	check(out, false)
	if x := readRunes(a); !runesEq(x, in) {
		e.Fail("operand-changed", "sorting changed its input: %q, now %q", in, x)
	}
	steps := res.TaskSteps["0"]
	n := len(s.At)
	boxes := make([]ctxBox, n)
	outs := make([]g.MatrixRune, n)
	cancelled := make([]bool, n)
	o := SimOpts{Quiet: n == 1, Handlers: map[string]func(string){"cancel": func(i string) { boxes[i[0]-'0'].strike("") }}, Limit: 20000000}
	for i, at := range s.At {
		if at < 1000 {
			o.Faults = append(o.Faults, sim.Fault{T: fmt.Sprintf("0.%d", i), N: int64(at) * steps / 1000, Name: fmt.Sprintf("cancel:%d", i)})
		}
	}
	e.Sim(o, func() {
		a = buildRune(s.A)
		var wg sim.WaitGroup
		for i := range s.At {
			i := i
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				ctx := boxes[i].set(newCtx())
				outs[i] = doSort(wrapCtx(ctx, s.W), s.Col, a)
				cancelled[i] = ctx.Struck()
			})
		}
		wg.Wait()
	})
	for i := range outs {
		check(outs[i], cancelled[i])
		if cancelled[i] {
			e.NonTrivial()
			e.Probe("cancelled sorts")
			if _, d := lines(s.A, readRunes(outs[i]), s.Col); !sort.StringsAreSorted(d) {
				e.Probe("left unsorted")
			}
		}
	}
	if n > 1 {
		e.NonTrivial()
		e.Probe("several sorts at once")
	}
	if x := readRunes(a); !runesEq(x, in) {
		e.Fail("operand-changed", "sorting changed its input: %q, now %q", in, x)
	}
}
