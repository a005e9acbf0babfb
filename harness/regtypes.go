package main

// Made by tools/mktypes.py: matrix types for the registry, none registered.

import (
	"reflect"

	g "github.com/rossmerr/graphblas"
	other "verifharness/other/graphblas"
)

type (
	Y000[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y001[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y002[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y003[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y004[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y005[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y006[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y007[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y008[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y009[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y010[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y011[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y012[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y013[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y014[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y015[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y016[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y017[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y018[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y019[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y020[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y021[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y022[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y023[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y024[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y025[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y026[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y027[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y028[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y029[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y030[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y031[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y032[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y033[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y034[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y035[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y036[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y037[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y038[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y039[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y040[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y041[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y042[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y043[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y044[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y045[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y046[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y047[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y048[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y049[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y050[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y051[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y052[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y053[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y054[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y055[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y056[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y057[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y058[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y059[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y060[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y061[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y062[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y063[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y064[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y065[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y066[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y067[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y068[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y069[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y070[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y071[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y072[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y073[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y074[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y075[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y076[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y077[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y078[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y079[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y080[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y081[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y082[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y083[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y084[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y085[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y086[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y087[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y088[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y089[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y090[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y091[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y092[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y093[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y094[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y095[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y096[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y097[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y098[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y099[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y100[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y101[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y102[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y103[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y104[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y105[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y106[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y107[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y108[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y109[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y110[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y111[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y112[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y113[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y114[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y115[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y116[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y117[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y118[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y119[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y120[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y121[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y122[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y123[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y124[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y125[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y126[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y127[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y128[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y129[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y130[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y131[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y132[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y133[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y134[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y135[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y136[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y137[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y138[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y139[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y140[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y141[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y142[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y143[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y144[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y145[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y146[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y147[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y148[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y149[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y150[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y151[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y152[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y153[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y154[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y155[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y156[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y157[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y158[T Num] struct{ *g.DenseMatrixNumber[T] }
	Y159[T Num] struct{ *g.DenseMatrixNumber[T] }
)

// regType is a matrix type that can be registered once in a process.
type regType struct {
	t      reflect.Type
	int_   func() g.Matrix[int]
	float_ func() g.Matrix[float64]
}

// twins are types of another package with the names of those in regTypes;
// every other one is not generic.
var twins = []regType{
	{reflect.TypeOf(other.Y000[float64]{}), func() g.Matrix[int] { return &other.Y000[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y000[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y001{}), nil, func() g.Matrix[float64] { return &other.Y001{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y002[float64]{}), func() g.Matrix[int] { return &other.Y002[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y002[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y003{}), nil, func() g.Matrix[float64] { return &other.Y003{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y004[float64]{}), func() g.Matrix[int] { return &other.Y004[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y004[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y005{}), nil, func() g.Matrix[float64] { return &other.Y005{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y006[float64]{}), func() g.Matrix[int] { return &other.Y006[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y006[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y007{}), nil, func() g.Matrix[float64] { return &other.Y007{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y008[float64]{}), func() g.Matrix[int] { return &other.Y008[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y008[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y009{}), nil, func() g.Matrix[float64] { return &other.Y009{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y010[float64]{}), func() g.Matrix[int] { return &other.Y010[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y010[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y011{}), nil, func() g.Matrix[float64] { return &other.Y011{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y012[float64]{}), func() g.Matrix[int] { return &other.Y012[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y012[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y013{}), nil, func() g.Matrix[float64] { return &other.Y013{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y014[float64]{}), func() g.Matrix[int] { return &other.Y014[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y014[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y015{}), nil, func() g.Matrix[float64] { return &other.Y015{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y016[float64]{}), func() g.Matrix[int] { return &other.Y016[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y016[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y017{}), nil, func() g.Matrix[float64] { return &other.Y017{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y018[float64]{}), func() g.Matrix[int] { return &other.Y018[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y018[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y019{}), nil, func() g.Matrix[float64] { return &other.Y019{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y020[float64]{}), func() g.Matrix[int] { return &other.Y020[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y020[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y021{}), nil, func() g.Matrix[float64] { return &other.Y021{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y022[float64]{}), func() g.Matrix[int] { return &other.Y022[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y022[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y023{}), nil, func() g.Matrix[float64] { return &other.Y023{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y024[float64]{}), func() g.Matrix[int] { return &other.Y024[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y024[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y025{}), nil, func() g.Matrix[float64] { return &other.Y025{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y026[float64]{}), func() g.Matrix[int] { return &other.Y026[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y026[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y027{}), nil, func() g.Matrix[float64] { return &other.Y027{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y028[float64]{}), func() g.Matrix[int] { return &other.Y028[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y028[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y029{}), nil, func() g.Matrix[float64] { return &other.Y029{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y030[float64]{}), func() g.Matrix[int] { return &other.Y030[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y030[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y031{}), nil, func() g.Matrix[float64] { return &other.Y031{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y032[float64]{}), func() g.Matrix[int] { return &other.Y032[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y032[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y033{}), nil, func() g.Matrix[float64] { return &other.Y033{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y034[float64]{}), func() g.Matrix[int] { return &other.Y034[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y034[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y035{}), nil, func() g.Matrix[float64] { return &other.Y035{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y036[float64]{}), func() g.Matrix[int] { return &other.Y036[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y036[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y037{}), nil, func() g.Matrix[float64] { return &other.Y037{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y038[float64]{}), func() g.Matrix[int] { return &other.Y038[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y038[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y039{}), nil, func() g.Matrix[float64] { return &other.Y039{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y040[float64]{}), func() g.Matrix[int] { return &other.Y040[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y040[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y041{}), nil, func() g.Matrix[float64] { return &other.Y041{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y042[float64]{}), func() g.Matrix[int] { return &other.Y042[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y042[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y043{}), nil, func() g.Matrix[float64] { return &other.Y043{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y044[float64]{}), func() g.Matrix[int] { return &other.Y044[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y044[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y045{}), nil, func() g.Matrix[float64] { return &other.Y045{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y046[float64]{}), func() g.Matrix[int] { return &other.Y046[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y046[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y047{}), nil, func() g.Matrix[float64] { return &other.Y047{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y048[float64]{}), func() g.Matrix[int] { return &other.Y048[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y048[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y049{}), nil, func() g.Matrix[float64] { return &other.Y049{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y050[float64]{}), func() g.Matrix[int] { return &other.Y050[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y050[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y051{}), nil, func() g.Matrix[float64] { return &other.Y051{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y052[float64]{}), func() g.Matrix[int] { return &other.Y052[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y052[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y053{}), nil, func() g.Matrix[float64] { return &other.Y053{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y054[float64]{}), func() g.Matrix[int] { return &other.Y054[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y054[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y055{}), nil, func() g.Matrix[float64] { return &other.Y055{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y056[float64]{}), func() g.Matrix[int] { return &other.Y056[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y056[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y057{}), nil, func() g.Matrix[float64] { return &other.Y057{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y058[float64]{}), func() g.Matrix[int] { return &other.Y058[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y058[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y059{}), nil, func() g.Matrix[float64] { return &other.Y059{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y060[float64]{}), func() g.Matrix[int] { return &other.Y060[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y060[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y061{}), nil, func() g.Matrix[float64] { return &other.Y061{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y062[float64]{}), func() g.Matrix[int] { return &other.Y062[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y062[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y063{}), nil, func() g.Matrix[float64] { return &other.Y063{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y064[float64]{}), func() g.Matrix[int] { return &other.Y064[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y064[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y065{}), nil, func() g.Matrix[float64] { return &other.Y065{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y066[float64]{}), func() g.Matrix[int] { return &other.Y066[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y066[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y067{}), nil, func() g.Matrix[float64] { return &other.Y067{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y068[float64]{}), func() g.Matrix[int] { return &other.Y068[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y068[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y069{}), nil, func() g.Matrix[float64] { return &other.Y069{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y070[float64]{}), func() g.Matrix[int] { return &other.Y070[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y070[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y071{}), nil, func() g.Matrix[float64] { return &other.Y071{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y072[float64]{}), func() g.Matrix[int] { return &other.Y072[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y072[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y073{}), nil, func() g.Matrix[float64] { return &other.Y073{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y074[float64]{}), func() g.Matrix[int] { return &other.Y074[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y074[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y075{}), nil, func() g.Matrix[float64] { return &other.Y075{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y076[float64]{}), func() g.Matrix[int] { return &other.Y076[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y076[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y077{}), nil, func() g.Matrix[float64] { return &other.Y077{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y078[float64]{}), func() g.Matrix[int] { return &other.Y078[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y078[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y079{}), nil, func() g.Matrix[float64] { return &other.Y079{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y080[float64]{}), func() g.Matrix[int] { return &other.Y080[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y080[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y081{}), nil, func() g.Matrix[float64] { return &other.Y081{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y082[float64]{}), func() g.Matrix[int] { return &other.Y082[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y082[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y083{}), nil, func() g.Matrix[float64] { return &other.Y083{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y084[float64]{}), func() g.Matrix[int] { return &other.Y084[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y084[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y085{}), nil, func() g.Matrix[float64] { return &other.Y085{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y086[float64]{}), func() g.Matrix[int] { return &other.Y086[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y086[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y087{}), nil, func() g.Matrix[float64] { return &other.Y087{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y088[float64]{}), func() g.Matrix[int] { return &other.Y088[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y088[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y089{}), nil, func() g.Matrix[float64] { return &other.Y089{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y090[float64]{}), func() g.Matrix[int] { return &other.Y090[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y090[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y091{}), nil, func() g.Matrix[float64] { return &other.Y091{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y092[float64]{}), func() g.Matrix[int] { return &other.Y092[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y092[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y093{}), nil, func() g.Matrix[float64] { return &other.Y093{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y094[float64]{}), func() g.Matrix[int] { return &other.Y094[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y094[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y095{}), nil, func() g.Matrix[float64] { return &other.Y095{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y096[float64]{}), func() g.Matrix[int] { return &other.Y096[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y096[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y097{}), nil, func() g.Matrix[float64] { return &other.Y097{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y098[float64]{}), func() g.Matrix[int] { return &other.Y098[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y098[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y099{}), nil, func() g.Matrix[float64] { return &other.Y099{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y100[float64]{}), func() g.Matrix[int] { return &other.Y100[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y100[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y101{}), nil, func() g.Matrix[float64] { return &other.Y101{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y102[float64]{}), func() g.Matrix[int] { return &other.Y102[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y102[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y103{}), nil, func() g.Matrix[float64] { return &other.Y103{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y104[float64]{}), func() g.Matrix[int] { return &other.Y104[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y104[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y105{}), nil, func() g.Matrix[float64] { return &other.Y105{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y106[float64]{}), func() g.Matrix[int] { return &other.Y106[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y106[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y107{}), nil, func() g.Matrix[float64] { return &other.Y107{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y108[float64]{}), func() g.Matrix[int] { return &other.Y108[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y108[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y109{}), nil, func() g.Matrix[float64] { return &other.Y109{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y110[float64]{}), func() g.Matrix[int] { return &other.Y110[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y110[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y111{}), nil, func() g.Matrix[float64] { return &other.Y111{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y112[float64]{}), func() g.Matrix[int] { return &other.Y112[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y112[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y113{}), nil, func() g.Matrix[float64] { return &other.Y113{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y114[float64]{}), func() g.Matrix[int] { return &other.Y114[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y114[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y115{}), nil, func() g.Matrix[float64] { return &other.Y115{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y116[float64]{}), func() g.Matrix[int] { return &other.Y116[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y116[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y117{}), nil, func() g.Matrix[float64] { return &other.Y117{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y118[float64]{}), func() g.Matrix[int] { return &other.Y118[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y118[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y119{}), nil, func() g.Matrix[float64] { return &other.Y119{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y120[float64]{}), func() g.Matrix[int] { return &other.Y120[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y120[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y121{}), nil, func() g.Matrix[float64] { return &other.Y121{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y122[float64]{}), func() g.Matrix[int] { return &other.Y122[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y122[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y123{}), nil, func() g.Matrix[float64] { return &other.Y123{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y124[float64]{}), func() g.Matrix[int] { return &other.Y124[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y124[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y125{}), nil, func() g.Matrix[float64] { return &other.Y125{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y126[float64]{}), func() g.Matrix[int] { return &other.Y126[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y126[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y127{}), nil, func() g.Matrix[float64] { return &other.Y127{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y128[float64]{}), func() g.Matrix[int] { return &other.Y128[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y128[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y129{}), nil, func() g.Matrix[float64] { return &other.Y129{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y130[float64]{}), func() g.Matrix[int] { return &other.Y130[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y130[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y131{}), nil, func() g.Matrix[float64] { return &other.Y131{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y132[float64]{}), func() g.Matrix[int] { return &other.Y132[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y132[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y133{}), nil, func() g.Matrix[float64] { return &other.Y133{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y134[float64]{}), func() g.Matrix[int] { return &other.Y134[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y134[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y135{}), nil, func() g.Matrix[float64] { return &other.Y135{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y136[float64]{}), func() g.Matrix[int] { return &other.Y136[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y136[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y137{}), nil, func() g.Matrix[float64] { return &other.Y137{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y138[float64]{}), func() g.Matrix[int] { return &other.Y138[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y138[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y139{}), nil, func() g.Matrix[float64] { return &other.Y139{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y140[float64]{}), func() g.Matrix[int] { return &other.Y140[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y140[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y141{}), nil, func() g.Matrix[float64] { return &other.Y141{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y142[float64]{}), func() g.Matrix[int] { return &other.Y142[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y142[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y143{}), nil, func() g.Matrix[float64] { return &other.Y143{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y144[float64]{}), func() g.Matrix[int] { return &other.Y144[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y144[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y145{}), nil, func() g.Matrix[float64] { return &other.Y145{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y146[float64]{}), func() g.Matrix[int] { return &other.Y146[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y146[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y147{}), nil, func() g.Matrix[float64] { return &other.Y147{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y148[float64]{}), func() g.Matrix[int] { return &other.Y148[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y148[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y149{}), nil, func() g.Matrix[float64] { return &other.Y149{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y150[float64]{}), func() g.Matrix[int] { return &other.Y150[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y150[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y151{}), nil, func() g.Matrix[float64] { return &other.Y151{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y152[float64]{}), func() g.Matrix[int] { return &other.Y152[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y152[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y153{}), nil, func() g.Matrix[float64] { return &other.Y153{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y154[float64]{}), func() g.Matrix[int] { return &other.Y154[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y154[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y155{}), nil, func() g.Matrix[float64] { return &other.Y155{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y156[float64]{}), func() g.Matrix[int] { return &other.Y156[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y156[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y157{}), nil, func() g.Matrix[float64] { return &other.Y157{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y158[float64]{}), func() g.Matrix[int] { return &other.Y158[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &other.Y158[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(other.Y159{}), nil, func() g.Matrix[float64] { return &other.Y159{g.NewDenseMatrixN[float64](2, 2)} }},
}

var regTypes = []regType{
	{reflect.TypeOf(Y000[float64]{}), func() g.Matrix[int] { return &Y000[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y000[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y001[float64]{}), func() g.Matrix[int] { return &Y001[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y001[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y002[float64]{}), func() g.Matrix[int] { return &Y002[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y002[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y003[float64]{}), func() g.Matrix[int] { return &Y003[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y003[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y004[float64]{}), func() g.Matrix[int] { return &Y004[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y004[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y005[float64]{}), func() g.Matrix[int] { return &Y005[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y005[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y006[float64]{}), func() g.Matrix[int] { return &Y006[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y006[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y007[float64]{}), func() g.Matrix[int] { return &Y007[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y007[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y008[float64]{}), func() g.Matrix[int] { return &Y008[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y008[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y009[float64]{}), func() g.Matrix[int] { return &Y009[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y009[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y010[float64]{}), func() g.Matrix[int] { return &Y010[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y010[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y011[float64]{}), func() g.Matrix[int] { return &Y011[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y011[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y012[float64]{}), func() g.Matrix[int] { return &Y012[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y012[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y013[float64]{}), func() g.Matrix[int] { return &Y013[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y013[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y014[float64]{}), func() g.Matrix[int] { return &Y014[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y014[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y015[float64]{}), func() g.Matrix[int] { return &Y015[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y015[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y016[float64]{}), func() g.Matrix[int] { return &Y016[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y016[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y017[float64]{}), func() g.Matrix[int] { return &Y017[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y017[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y018[float64]{}), func() g.Matrix[int] { return &Y018[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y018[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y019[float64]{}), func() g.Matrix[int] { return &Y019[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y019[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y020[float64]{}), func() g.Matrix[int] { return &Y020[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y020[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y021[float64]{}), func() g.Matrix[int] { return &Y021[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y021[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y022[float64]{}), func() g.Matrix[int] { return &Y022[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y022[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y023[float64]{}), func() g.Matrix[int] { return &Y023[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y023[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y024[float64]{}), func() g.Matrix[int] { return &Y024[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y024[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y025[float64]{}), func() g.Matrix[int] { return &Y025[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y025[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y026[float64]{}), func() g.Matrix[int] { return &Y026[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y026[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y027[float64]{}), func() g.Matrix[int] { return &Y027[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y027[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y028[float64]{}), func() g.Matrix[int] { return &Y028[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y028[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y029[float64]{}), func() g.Matrix[int] { return &Y029[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y029[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y030[float64]{}), func() g.Matrix[int] { return &Y030[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y030[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y031[float64]{}), func() g.Matrix[int] { return &Y031[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y031[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y032[float64]{}), func() g.Matrix[int] { return &Y032[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y032[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y033[float64]{}), func() g.Matrix[int] { return &Y033[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y033[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y034[float64]{}), func() g.Matrix[int] { return &Y034[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y034[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y035[float64]{}), func() g.Matrix[int] { return &Y035[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y035[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y036[float64]{}), func() g.Matrix[int] { return &Y036[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y036[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y037[float64]{}), func() g.Matrix[int] { return &Y037[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y037[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y038[float64]{}), func() g.Matrix[int] { return &Y038[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y038[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y039[float64]{}), func() g.Matrix[int] { return &Y039[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y039[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y040[float64]{}), func() g.Matrix[int] { return &Y040[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y040[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y041[float64]{}), func() g.Matrix[int] { return &Y041[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y041[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y042[float64]{}), func() g.Matrix[int] { return &Y042[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y042[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y043[float64]{}), func() g.Matrix[int] { return &Y043[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y043[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y044[float64]{}), func() g.Matrix[int] { return &Y044[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y044[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y045[float64]{}), func() g.Matrix[int] { return &Y045[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y045[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y046[float64]{}), func() g.Matrix[int] { return &Y046[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y046[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y047[float64]{}), func() g.Matrix[int] { return &Y047[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y047[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y048[float64]{}), func() g.Matrix[int] { return &Y048[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y048[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y049[float64]{}), func() g.Matrix[int] { return &Y049[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y049[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y050[float64]{}), func() g.Matrix[int] { return &Y050[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y050[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y051[float64]{}), func() g.Matrix[int] { return &Y051[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y051[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y052[float64]{}), func() g.Matrix[int] { return &Y052[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y052[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y053[float64]{}), func() g.Matrix[int] { return &Y053[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y053[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y054[float64]{}), func() g.Matrix[int] { return &Y054[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y054[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y055[float64]{}), func() g.Matrix[int] { return &Y055[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y055[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y056[float64]{}), func() g.Matrix[int] { return &Y056[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y056[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y057[float64]{}), func() g.Matrix[int] { return &Y057[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y057[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y058[float64]{}), func() g.Matrix[int] { return &Y058[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y058[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y059[float64]{}), func() g.Matrix[int] { return &Y059[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y059[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y060[float64]{}), func() g.Matrix[int] { return &Y060[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y060[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y061[float64]{}), func() g.Matrix[int] { return &Y061[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y061[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y062[float64]{}), func() g.Matrix[int] { return &Y062[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y062[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y063[float64]{}), func() g.Matrix[int] { return &Y063[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y063[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y064[float64]{}), func() g.Matrix[int] { return &Y064[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y064[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y065[float64]{}), func() g.Matrix[int] { return &Y065[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y065[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y066[float64]{}), func() g.Matrix[int] { return &Y066[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y066[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y067[float64]{}), func() g.Matrix[int] { return &Y067[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y067[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y068[float64]{}), func() g.Matrix[int] { return &Y068[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y068[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y069[float64]{}), func() g.Matrix[int] { return &Y069[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y069[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y070[float64]{}), func() g.Matrix[int] { return &Y070[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y070[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y071[float64]{}), func() g.Matrix[int] { return &Y071[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y071[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y072[float64]{}), func() g.Matrix[int] { return &Y072[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y072[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y073[float64]{}), func() g.Matrix[int] { return &Y073[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y073[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y074[float64]{}), func() g.Matrix[int] { return &Y074[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y074[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y075[float64]{}), func() g.Matrix[int] { return &Y075[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y075[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y076[float64]{}), func() g.Matrix[int] { return &Y076[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y076[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y077[float64]{}), func() g.Matrix[int] { return &Y077[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y077[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y078[float64]{}), func() g.Matrix[int] { return &Y078[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y078[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y079[float64]{}), func() g.Matrix[int] { return &Y079[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y079[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y080[float64]{}), func() g.Matrix[int] { return &Y080[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y080[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y081[float64]{}), func() g.Matrix[int] { return &Y081[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y081[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y082[float64]{}), func() g.Matrix[int] { return &Y082[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y082[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y083[float64]{}), func() g.Matrix[int] { return &Y083[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y083[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y084[float64]{}), func() g.Matrix[int] { return &Y084[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y084[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y085[float64]{}), func() g.Matrix[int] { return &Y085[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y085[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y086[float64]{}), func() g.Matrix[int] { return &Y086[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y086[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y087[float64]{}), func() g.Matrix[int] { return &Y087[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y087[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y088[float64]{}), func() g.Matrix[int] { return &Y088[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y088[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y089[float64]{}), func() g.Matrix[int] { return &Y089[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y089[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y090[float64]{}), func() g.Matrix[int] { return &Y090[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y090[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y091[float64]{}), func() g.Matrix[int] { return &Y091[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y091[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y092[float64]{}), func() g.Matrix[int] { return &Y092[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y092[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y093[float64]{}), func() g.Matrix[int] { return &Y093[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y093[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y094[float64]{}), func() g.Matrix[int] { return &Y094[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y094[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y095[float64]{}), func() g.Matrix[int] { return &Y095[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y095[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y096[float64]{}), func() g.Matrix[int] { return &Y096[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y096[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y097[float64]{}), func() g.Matrix[int] { return &Y097[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y097[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y098[float64]{}), func() g.Matrix[int] { return &Y098[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y098[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y099[float64]{}), func() g.Matrix[int] { return &Y099[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y099[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y100[float64]{}), func() g.Matrix[int] { return &Y100[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y100[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y101[float64]{}), func() g.Matrix[int] { return &Y101[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y101[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y102[float64]{}), func() g.Matrix[int] { return &Y102[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y102[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y103[float64]{}), func() g.Matrix[int] { return &Y103[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y103[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y104[float64]{}), func() g.Matrix[int] { return &Y104[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y104[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y105[float64]{}), func() g.Matrix[int] { return &Y105[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y105[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y106[float64]{}), func() g.Matrix[int] { return &Y106[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y106[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y107[float64]{}), func() g.Matrix[int] { return &Y107[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y107[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y108[float64]{}), func() g.Matrix[int] { return &Y108[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y108[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y109[float64]{}), func() g.Matrix[int] { return &Y109[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y109[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y110[float64]{}), func() g.Matrix[int] { return &Y110[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y110[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y111[float64]{}), func() g.Matrix[int] { return &Y111[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y111[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y112[float64]{}), func() g.Matrix[int] { return &Y112[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y112[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y113[float64]{}), func() g.Matrix[int] { return &Y113[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y113[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y114[float64]{}), func() g.Matrix[int] { return &Y114[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y114[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y115[float64]{}), func() g.Matrix[int] { return &Y115[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y115[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y116[float64]{}), func() g.Matrix[int] { return &Y116[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y116[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y117[float64]{}), func() g.Matrix[int] { return &Y117[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y117[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y118[float64]{}), func() g.Matrix[int] { return &Y118[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y118[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y119[float64]{}), func() g.Matrix[int] { return &Y119[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y119[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y120[float64]{}), func() g.Matrix[int] { return &Y120[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y120[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y121[float64]{}), func() g.Matrix[int] { return &Y121[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y121[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y122[float64]{}), func() g.Matrix[int] { return &Y122[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y122[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y123[float64]{}), func() g.Matrix[int] { return &Y123[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y123[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y124[float64]{}), func() g.Matrix[int] { return &Y124[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y124[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y125[float64]{}), func() g.Matrix[int] { return &Y125[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y125[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y126[float64]{}), func() g.Matrix[int] { return &Y126[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y126[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y127[float64]{}), func() g.Matrix[int] { return &Y127[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y127[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y128[float64]{}), func() g.Matrix[int] { return &Y128[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y128[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y129[float64]{}), func() g.Matrix[int] { return &Y129[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y129[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y130[float64]{}), func() g.Matrix[int] { return &Y130[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y130[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y131[float64]{}), func() g.Matrix[int] { return &Y131[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y131[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y132[float64]{}), func() g.Matrix[int] { return &Y132[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y132[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y133[float64]{}), func() g.Matrix[int] { return &Y133[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y133[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y134[float64]{}), func() g.Matrix[int] { return &Y134[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y134[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y135[float64]{}), func() g.Matrix[int] { return &Y135[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y135[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y136[float64]{}), func() g.Matrix[int] { return &Y136[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y136[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y137[float64]{}), func() g.Matrix[int] { return &Y137[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y137[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y138[float64]{}), func() g.Matrix[int] { return &Y138[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y138[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y139[float64]{}), func() g.Matrix[int] { return &Y139[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y139[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y140[float64]{}), func() g.Matrix[int] { return &Y140[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y140[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y141[float64]{}), func() g.Matrix[int] { return &Y141[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y141[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y142[float64]{}), func() g.Matrix[int] { return &Y142[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y142[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y143[float64]{}), func() g.Matrix[int] { return &Y143[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y143[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y144[float64]{}), func() g.Matrix[int] { return &Y144[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y144[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y145[float64]{}), func() g.Matrix[int] { return &Y145[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y145[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y146[float64]{}), func() g.Matrix[int] { return &Y146[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y146[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y147[float64]{}), func() g.Matrix[int] { return &Y147[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y147[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y148[float64]{}), func() g.Matrix[int] { return &Y148[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y148[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y149[float64]{}), func() g.Matrix[int] { return &Y149[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y149[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y150[float64]{}), func() g.Matrix[int] { return &Y150[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y150[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y151[float64]{}), func() g.Matrix[int] { return &Y151[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y151[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y152[float64]{}), func() g.Matrix[int] { return &Y152[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y152[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y153[float64]{}), func() g.Matrix[int] { return &Y153[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y153[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y154[float64]{}), func() g.Matrix[int] { return &Y154[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y154[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y155[float64]{}), func() g.Matrix[int] { return &Y155[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y155[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y156[float64]{}), func() g.Matrix[int] { return &Y156[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y156[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y157[float64]{}), func() g.Matrix[int] { return &Y157[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y157[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y158[float64]{}), func() g.Matrix[int] { return &Y158[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y158[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
	{reflect.TypeOf(Y159[float64]{}), func() g.Matrix[int] { return &Y159[int]{g.NewDenseMatrixN[int](2, 2)} }, func() g.Matrix[float64] { return &Y159[float64]{g.NewDenseMatrixN[float64](2, 2)} }},
}
