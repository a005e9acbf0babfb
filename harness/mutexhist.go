package main

import (
	"fmt"
	"sort"
	"strings"

	g "github.com/rossmerr/graphblas"
	"verifsim"
)

// mutexhist: several clients call the methods of locked matrices at once; the
// recorded history must be linearizable against a model of a matrix.

type mhOp struct {
	K    string `json:"k"`
	M    int    `json:"m,omitempty"` // which locked matrix
	R    int    `json:"r"`
	C    int    `json:"c"`
	V    int    `json:"v,omitempty"`
	Y    int    `json:"y,omitempty"`    // how often an update function gives way
	Late int    `json:"late,omitempty"` // when the result is read: 0 at once, 1 when the client is done, 2 after everyone is done
	Sf   bool   `json:"storage_fails,omitempty"`
	Mut  int    `json:"mut,omitempty"` // the holder of the result changes it (not 0)
	MR   int    `json:"mr,omitempty"`
	MC   int    `json:"mc,omitempty"`
}

type mhSpec struct {
	T string   `json:"type"`
	M []Mat    `json:"matrices"`
	D Mat      `json:"same"`   // an operand of the same size
	X Mat      `json:"factor"` // an operand to multiply by
	P [][]mhOp `json:"clients"`
	F bool     `json:"storage_may_fail,omitempty"`
}

type mutexHist struct{ mode string } // "lin", "fail", "private"

func (h mutexHist) New() any { return &mhSpec{} }

var mhBasic = []string{"at", "set", "set", "set", "update", "update", "update", "update", "clear", "values", "copy", "copy", "row", "col", "arr", "enum", "enum", "element", "dims"}
var mhArith = []string{"scalar", "mul", "add", "sub", "neg", "trans", "equal", "notequal"}
var mhFail = []string{"badat", "badset", "badupdate", "boom", "boom", "badcol", "badrow", "badarr", "badmul", "badadd", "badsub", "badelement"}
var mhHanded = []string{"copy", "row", "col", "arr", "enum", "scalar", "mul", "add", "sub", "neg", "trans"}

func (h mutexHist) Gen(r *sim.Rng, e *Env) any {
	s := &mhSpec{T: pickType(r)}
	nm := 1
	if h.mode == "fail" {
		nm = 1 + r.Intn(3)
		s.F = r.Intn(3) == 0
	}
	for i := 0; i < nm; i++ {
		f := pick(r, formats)
		a, b := shape(r, 4)
		s.M = append(s.M, genMat(r, f, a, b, density(r)))
	}
	s.D = genMat(r, pick(r, matFormats), s.M[0].R, s.M[0].C, density(r))
	s.X = genMat(r, pick(r, matFormats), s.M[0].C, 1+r.Intn(3), density(r))
	n := 2 + r.Intn(3)
	if r.Intn(12) == 0 {
		n = 5 + r.Intn(5)
	}
	left, calls := 13, 5
	if r.Intn(40) == 0 {
		// few clients with much to do
		n, left, calls = 1+r.Intn(3), 56, 28
	}
	for i := 0; i < n; i++ {
		var p []mhOp
		for k := 1 + r.Intn(calls); k > 0 && left > 0; k-- {
			left--
			m := s.M[r.Intn(nm)]
			o := mhOp{V: 1 + r.Intn(9), Y: r.Intn(3)}
			o.M = r.Intn(nm)
			m = s.M[o.M]
			// few cells, so that calls meet
			o.R, o.C = r.Intn(min(2, m.R)), r.Intn(min(2, m.C))
			if r.Intn(4) == 0 {
				o.R, o.C = r.Intn(m.R), r.Intn(m.C)
			}
			switch x := r.Intn(10); {
			case h.mode == "fail" && x < 5:
				o.K = pick(r, mhFail)
				o.MR = r.Intn(64)
			case h.mode == "private" && x < 6:
				o.K = pick(r, mhHanded)
				o.Late = r.Intn(3)
				o.Mut = r.Intn(2) * (1 + r.Intn(9))
				o.MR, o.MC = r.Intn(4), r.Intn(4)
			case x < 9:
				o.K = pick(r, mhBasic)
			default:
				o.K = pick(r, mhArith)
			}
			if s.F && r.Intn(3) == 0 {
				o.Sf = true
			}
			if o.K == "set" && r.Intn(4) == 0 {
				o.V = 0
			}
			p = append(p, o)
		}
		s.P = append(s.P, p)
	}
	return s
}

func (s *mhSpec) norm() {
	if len(s.M) == 0 {
		s.M = []Mat{{F: "dense", R: 1, C: 1}}
	}
	for i := range s.M {
		s.M[i].norm()
		s.M[i].R = clamp(s.M[i].R, 1, 80)
		s.M[i].C = clamp(s.M[i].C, 1, 80)
	}
	if s.D.isVec() {
		s.D.F = "dense"
	}
	if s.X.isVec() {
		s.X.F = "dense"
	}
	s.D.resize(s.M[0].R, s.M[0].C)
	s.X.resize(s.M[0].C, clamp(s.X.C, 1, 4))
	left := 13
	if len(s.P) <= 3 {
		left = 56
	}
	for i := range s.P {
		if len(s.P[i]) > left {
			s.P[i] = s.P[i][:left]
		}
		left -= len(s.P[i])
		for k := range s.P[i] {
			o := &s.P[i][k]
			o.M = mod(o.M, len(s.M))
			o.R, o.C = mod(o.R, s.M[o.M].R), mod(o.C, s.M[o.M].C)
			if o.M != 0 && (o.K == "mul" || o.K == "add" || o.K == "sub" || o.K == "equal" || o.K == "notequal") {
				o.K = "copy"
			}
			if o.K == "mul" && s.M[0].isVec() && s.M[0].R > 1 {
				o.K = "neg"
			}
		}
	}
}

func (h mutexHist) Run(e *Env, spec any) {
	s := spec.(*mhSpec)
	s.norm()
	switch s.T {
	case "float64":
		mhRun[float64](e, s)
	case "int8":
		mhRun[int8](e, s)
	case "uint16":
		mhRun[uint16](e, s)
	default:
		mhRun[int](e, s)
	}
}

// handed is a result that a locked matrix handed out.
type handed[T Num] struct {
	vec  g.VectorLogial[T]
	mat  g.MatrixLogical[T]
	arr  []T
	enum g.Enumerate[T]
	r, c int // for enum
}

// read shows the contents, giving way to other tasks in between.
func (h *handed[T]) read() string {
	switch {
	case h.vec != nil:
		x := make([]T, h.vec.Length())
		for i := range x {
			x[i] = h.vec.AtVec(i) + 0
		}
		return fmt.Sprint(x)
	case h.mat != nil:
		return readGrid(h.mat).key()
	case h.enum != nil:
		return enumText(h.enum, h.r, h.c)
	}
	x := make([]T, len(h.arr))
	for i := range x {
		x[i] = h.arr[i] + 0
		sim.Yield()
	}
	return fmt.Sprint(x)
}

// mutate changes one element and says what read shows from then on.
func (h *handed[T]) mutate(i, k int, v T) string {
	switch {
	case h.vec != nil:
		x := make([]T, h.vec.Length())
		h.vec.SetVec(mod(i, len(x)), v)
		return h.read()
	case h.mat != nil:
		h.mat.Set(mod(i, h.mat.Rows()), mod(k, h.mat.Columns()), v)
		return h.read()
	case h.enum != nil:
		return ""
	}
	if len(h.arr) > 0 {
		h.arr[mod(i, len(h.arr))] = v
	}
	return h.read()
}

type boom struct {
	client, op int
}

// call makes the call; a result handed out comes back in h, any other as text.

func mhCall[T Num](m *g.MutexMatrix[T], o *mhOp, same, factor, wrong g.Matrix[T], who any) (resp string, h *handed[T]) {
	badR, badC := o.R, o.C
	if o.MR%2 == 0 {
		badR = wild(m.Rows(), o.MR/2)
	} else {
		badC = wild(m.Columns(), o.MR/2)
	}
	up := func(v T) T {
		for i := 0; i < o.Y; i++ {
			sim.Yield()
		}
		return v*3 + num[T](o.V)
	}
	c := try(func() {
		switch o.K {
		case "at":
			resp = fmt.Sprint(m.At(o.R, o.C) + 0)
		case "set":
			m.Set(o.R, o.C, num[T](o.V))
		case "update":
			m.Update(o.R, o.C, up)
		case "clear":
			m.Clear()
		case "dims":
			resp = fmt.Sprint(m.Rows(), m.Columns(), m.Size())
		case "values":
			resp = fmt.Sprint(m.Values())
		case "copy":
			h = &handed[T]{mat: m.Copy()}
		case "row":
			h = &handed[T]{vec: m.RowsAt(o.R)}
		case "col":
			h = &handed[T]{vec: m.ColumnsAt(o.C)}
		case "arr":
			h = &handed[T]{arr: m.RowsAtToArray(o.R)}
		case "enum":
			h = &handed[T]{enum: m.Enumerate(), r: m.Rows(), c: m.Columns()}
		case "element":
			resp = fmt.Sprint(m.Element(o.R, o.C))
		case "scalar":
			h = &handed[T]{mat: m.Scalar(num[T](o.V))}
		case "mul":
			h = &handed[T]{mat: m.Multiply(factor)}
		case "add":
			h = &handed[T]{mat: m.Add(same)}
		case "sub":
			h = &handed[T]{mat: m.Subtract(same)}
		case "neg":
			h = &handed[T]{mat: m.Negative()}
		case "trans":
			h = &handed[T]{mat: m.Transpose()}
		case "equal":
			resp = fmt.Sprint(m.Equal(same))
		case "notequal":
			resp = fmt.Sprint(m.NotEqual(same))
		case "badat":
			resp = fmt.Sprint(m.At(badR, badC) + 0)
		case "badset":
			m.Set(badR, badC, num[T](o.V))
		case "badupdate":
			m.Update(badR, badC, up)
		case "badelement":
			resp = fmt.Sprint(m.Element(badR, badC))
		case "boom":
			m.Update(o.R, o.C, func(v T) T {
				up(v)
				panic(who)
			})
		case "badcol":
			m.ColumnsAt(wild(m.Columns(), o.MR))
		case "badrow":
			m.RowsAt(wild(m.Rows(), o.MR))
		case "badarr":
			m.RowsAtToArray(wild(m.Rows(), o.MR))
		case "badmul":
			m.Multiply(wrong)
		case "badadd":
			m.Add(wrong)
		case "badsub":
			m.Subtract(wrong)
		}
	})
	if c.panicked {
		if b, ok := c.val.(boom); ok {
			if b == who.(boom) {
				return "its own panic", nil
			}
			return fmt.Sprintf("the panic of another's call %v", b), nil
		}
		return "panic", nil
	}
	return resp, h
}

type mhRec[T Num] struct {
	who      boom
	op       *mhOp
	inv, ret int64
	resp     string
	h        *handed[T]
	after    string // what a changed result must still show at the end
	read     bool
	failed   bool // its storage failed
}

func mhRun[T Num](e *Env, s *mhSpec) {
	ms := make([]*g.MutexMatrix[T], len(s.M))
	flt := &faults{}
	s.P = s.P[:min(len(s.P), len(flt.slot))]
	for i, d := range s.M {
		ms[i] = g.NewMutexMatrix(build[T](d))
		if s.F {
			ms[i] = g.NewMutexMatrix[T](&faulty[T]{build[T](d), flt})
		}
	}
	same, factor := build[T](s.D), build[T](s.X)
	wrong := build[T](Mat{F: "dense", R: s.M[0].R + s.M[0].C + 1, C: s.M[0].C + 3})
	hist := make([][]*mhRec[T], len(s.P)+1)
	res := e.Sim(SimOpts{}, func() {
		var wg sim.WaitGroup
		for i := range s.P {
			i := i
			for k := range s.P[i] {
				hist[i] = append(hist[i], &mhRec[T]{who: boom{i, k}, op: &s.P[i][k]})
			}
			wg.Add(1)
			sim.Spawn(func() {
				defer wg.Done()
				finish := func(x *mhRec[T]) {
					if x.h == nil || x.read {
						return
					}
					x.resp = x.h.read()
					x.read = true
					if x.op.Mut != 0 {
						x.after = x.h.mutate(x.op.MR, x.op.MC, num[T](x.op.Mut))
					} else {
						x.after = x.resp
					}
				}
				if s.F {
					flt.enter(i, sim.Path())
				}
				for _, x := range hist[i] {
					sim.Yield()
					x.inv = sim.Seq()
					if s.F && x.op.Sf {
						flt.arm(i, x.who, x.op.Y)
					}
					x.resp, x.h = mhCall(ms[x.op.M], x.op, same, factor, wrong, x.who)
					x.ret = sim.Seq()
					if s.F && x.op.Sf {
						x.failed = flt.disarm(i)
					}
					sim.Yield()
					if x.op.Late == 0 {
						finish(x)
					}
				}
				for _, x := range hist[i] {
					if x.op.Late == 1 {
						finish(x)
					}
				}
			})
		}
		wg.Wait()
		last := len(s.P)
		for m := range ms {
			x := &mhRec[T]{who: boom{last, m}, op: &mhOp{K: "copy", M: m}}
			sim.Yield()
			x.inv = sim.Seq()
			x.resp, x.h = mhCall(ms[m], x.op, same, factor, wrong, x.who)
			x.ret = sim.Seq()
			hist[last] = append(hist[last], x)
		}
		// one more use of each lock, shared and exclusive
		for m := range ms {
			ms[m].Values()
			ms[m].Set(0, 0, ms[m].At(0, 0))
		}
	})
	_ = res
	over := 0
	for i := range hist {
		for _, x := range hist[i] {
			if x.h != nil {
				if !x.read {
					x.resp = x.h.read()
					x.after = x.resp
				} else if x.h.enum == nil {
					if now := x.h.read(); now != x.after {
						e.Fail("not-private", "what %s gave client %d shows %s, and %s after the others were done", x.op.K, i, x.after, now)
					}
				}
			}
			if i < len(s.P) {
				for k := range hist {
					if k != i && k < len(s.P) {
						for _, y := range hist[k] {
							if x.op.M == y.op.M && x.inv < y.ret && y.inv < x.ret {
								over++
							}
						}
					}
				}
				e.stats.Probes["op:"+x.op.K]++
				if x.failed {
					e.stats.Faults["storage"]++
				}
				if strings.HasPrefix(x.resp, "panic") {
					e.Probe("failed calls")
				}
			}
		}
	}
	if over > 0 {
		e.NonTrivial()
		e.Probe("runs with overlapping calls")
	}
	if x := readGrid[T](same); !x.eq(cells[T](s.D)) {
		e.Fail("operand-changed", "the operand was %v and is %v", cells[T](s.D), x)
	}
	if x := readGrid[T](factor); !x.eq(cells[T](s.X)) {
		e.Fail("operand-changed", "the operand was %v and is %v", cells[T](s.X), x)
	}
	for m := range ms {
		var ops []*mhRec[T]
		for i := range hist {
			for _, x := range hist[i] {
				if x.op.M == m {
					ops = append(ops, x)
				}
			}
		}
		mod := &mhModel[T]{s: s, d: s.M[m], who: m, same: same, factor: factor, wrong: wrong, cache: map[string]string{}}
		if !mod.linearizable(ops) {
			e.Fail("not-linearizable", "no one-at-a-time order explains this history of a %s matrix holding %v:\n%s", s.M[m].F, cells[T](s.M[m]), mhText(ops))
		}
	}
}

func mhText[T Num](ops []*mhRec[T]) string {
	l := append([]*mhRec[T]{}, ops...)
	sort.Slice(l, func(i, k int) bool { return l[i].inv < l[k].inv })
	var b strings.Builder
	for _, x := range l {
		fmt.Fprintf(&b, "  client %d [%d,%d] %s(%d,%d;%d) -> %s\n", x.who.client, x.inv, x.ret, x.op.K, x.op.R, x.op.C, x.op.V, x.resp)
	}
	return b.String()
}

// mhModel is the sequential model: elements only.
type mhModel[T Num] struct {
	s                   *mhSpec
	d                   Mat
	who                 int
	same, factor, wrong g.Matrix[T]
	cache               map[string]string
}

// apply gives the response and the state after.
func (m *mhModel[T]) apply(x *grid[T], rec *mhRec[T]) (string, *grid[T]) {
	o := rec.op
	vec := func(n int, f func(int) T) string {
		l := make([]T, n)
		for i := range l {
			l[i] = f(i) + 0
		}
		return fmt.Sprint(l)
	}
	if rec.failed {
		return "its own panic", x
	}
	switch o.K {
	case "at":
		return fmt.Sprint(x.at(o.R, o.C) + 0), x
	case "set":
		y := x.clone()
		y.set(o.R, o.C, num[T](o.V))
		return "", y
	case "update":
		y := x.clone()
		y.set(o.R, o.C, x.at(o.R, o.C)*3+num[T](o.V))
		return "", y
	case "clear":
		return "", newGrid[T](x.r, x.c)
	case "dims":
		return fmt.Sprint(x.r, x.c, x.r*x.c), x
	case "values":
		if !m.d.isSparse() {
			return fmt.Sprint(x.r * x.c), x
		}
		n := 0
		for _, v := range x.v {
			if v != 0 {
				n++
			}
		}
		return fmt.Sprint(n), x
	case "copy":
		return x.key(), x
	case "row", "arr":
		return vec(x.c, func(i int) T { return x.at(o.R, i) }), x
	case "col":
		return vec(x.r, func(i int) T { return x.at(i, o.C) }), x
	case "enum":
		return x.enumText(), x
	case "element":
		return fmt.Sprint(x.at(o.R, o.C) > 0), x
	case "boom":
		return "its own panic", x
	}
	// the rest: what the call gives on a fresh matrix that no one shares
	k := x.key() + fmt.Sprint(o.K, o.R, o.C, o.V, o.MR)
	if r, ok := m.cache[k]; ok {
		return r, x
	}
	var resp string
	quiet(func() {
		var h *handed[T]
		resp, h = mhCall(g.NewMutexMatrix(fromGrid(m.d.F, x)), o, m.same, m.factor, m.wrong, rec.who)
		if h != nil {
			resp = h.read()
		}
	})
	m.cache[k] = resp
	return resp, x
}

// quiet runs f under the default schedule, unrecorded.
func quiet(f func()) {
	sim.Run(sim.Config{Policy: "default", Knobs: 1}, nil, f)
}

func (m *mhModel[T]) linearizable(ops []*mhRec[T]) bool {
	n := len(ops)
	seen := map[string]bool{}
	var rec func(done uint64, x *grid[T]) bool
	rec = func(done uint64, x *grid[T]) bool {
		if done == 1<<n-1 {
			return true
		}
		k := fmt.Sprint(done, x.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		// an operation may come next if none still to come returned before it began
		first := int64(1) << 62
		for i, o := range ops {
			if done&(1<<i) == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if done&(1<<i) != 0 || o.inv > first {
				continue
			}
			r, y := m.apply(x, o)
			if r == o.resp && rec(done|1<<i, y) {
				return true
			}
		}
		return false
	}
	return rec(0, cells[T](m.d))
}
