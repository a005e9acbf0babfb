package graphblas

// Made by tools/mktypes.py: matrix types with the names of those in
// harness/regtypes.go, and with names of the library's own, in a package of
// the library's name.

import g "github.com/rossmerr/graphblas"

type num interface{ int | float64 }

type (
	CSRMatrix           struct{ *g.DenseMatrixNumber[float64] }
	CSCMatrix[T num]    struct{ *g.DenseMatrixNumber[T] }
	SparseVector[T num] struct{ *g.DenseMatrixNumber[T] }
	Y000[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y001                struct{ *g.DenseMatrixNumber[float64] }
	Y002[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y003                struct{ *g.DenseMatrixNumber[float64] }
	Y004[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y005                struct{ *g.DenseMatrixNumber[float64] }
	Y006[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y007                struct{ *g.DenseMatrixNumber[float64] }
	Y008[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y009                struct{ *g.DenseMatrixNumber[float64] }
	Y010[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y011                struct{ *g.DenseMatrixNumber[float64] }
	Y012[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y013                struct{ *g.DenseMatrixNumber[float64] }
	Y014[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y015                struct{ *g.DenseMatrixNumber[float64] }
	Y016[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y017                struct{ *g.DenseMatrixNumber[float64] }
	Y018[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y019                struct{ *g.DenseMatrixNumber[float64] }
	Y020[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y021                struct{ *g.DenseMatrixNumber[float64] }
	Y022[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y023                struct{ *g.DenseMatrixNumber[float64] }
	Y024[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y025                struct{ *g.DenseMatrixNumber[float64] }
	Y026[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y027                struct{ *g.DenseMatrixNumber[float64] }
	Y028[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y029                struct{ *g.DenseMatrixNumber[float64] }
	Y030[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y031                struct{ *g.DenseMatrixNumber[float64] }
	Y032[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y033                struct{ *g.DenseMatrixNumber[float64] }
	Y034[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y035                struct{ *g.DenseMatrixNumber[float64] }
	Y036[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y037                struct{ *g.DenseMatrixNumber[float64] }
	Y038[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y039                struct{ *g.DenseMatrixNumber[float64] }
	Y040[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y041                struct{ *g.DenseMatrixNumber[float64] }
	Y042[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y043                struct{ *g.DenseMatrixNumber[float64] }
	Y044[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y045                struct{ *g.DenseMatrixNumber[float64] }
	Y046[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y047                struct{ *g.DenseMatrixNumber[float64] }
	Y048[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y049                struct{ *g.DenseMatrixNumber[float64] }
	Y050[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y051                struct{ *g.DenseMatrixNumber[float64] }
	Y052[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y053                struct{ *g.DenseMatrixNumber[float64] }
	Y054[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y055                struct{ *g.DenseMatrixNumber[float64] }
	Y056[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y057                struct{ *g.DenseMatrixNumber[float64] }
	Y058[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y059                struct{ *g.DenseMatrixNumber[float64] }
	Y060[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y061                struct{ *g.DenseMatrixNumber[float64] }
	Y062[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y063                struct{ *g.DenseMatrixNumber[float64] }
	Y064[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y065                struct{ *g.DenseMatrixNumber[float64] }
	Y066[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y067                struct{ *g.DenseMatrixNumber[float64] }
	Y068[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y069                struct{ *g.DenseMatrixNumber[float64] }
	Y070[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y071                struct{ *g.DenseMatrixNumber[float64] }
	Y072[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y073                struct{ *g.DenseMatrixNumber[float64] }
	Y074[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y075                struct{ *g.DenseMatrixNumber[float64] }
	Y076[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y077                struct{ *g.DenseMatrixNumber[float64] }
	Y078[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y079                struct{ *g.DenseMatrixNumber[float64] }
	Y080[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y081                struct{ *g.DenseMatrixNumber[float64] }
	Y082[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y083                struct{ *g.DenseMatrixNumber[float64] }
	Y084[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y085                struct{ *g.DenseMatrixNumber[float64] }
	Y086[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y087                struct{ *g.DenseMatrixNumber[float64] }
	Y088[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y089                struct{ *g.DenseMatrixNumber[float64] }
	Y090[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y091                struct{ *g.DenseMatrixNumber[float64] }
	Y092[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y093                struct{ *g.DenseMatrixNumber[float64] }
	Y094[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y095                struct{ *g.DenseMatrixNumber[float64] }
	Y096[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y097                struct{ *g.DenseMatrixNumber[float64] }
	Y098[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y099                struct{ *g.DenseMatrixNumber[float64] }
	Y100[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y101                struct{ *g.DenseMatrixNumber[float64] }
	Y102[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y103                struct{ *g.DenseMatrixNumber[float64] }
	Y104[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y105                struct{ *g.DenseMatrixNumber[float64] }
	Y106[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y107                struct{ *g.DenseMatrixNumber[float64] }
	Y108[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y109                struct{ *g.DenseMatrixNumber[float64] }
	Y110[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y111                struct{ *g.DenseMatrixNumber[float64] }
	Y112[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y113                struct{ *g.DenseMatrixNumber[float64] }
	Y114[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y115                struct{ *g.DenseMatrixNumber[float64] }
	Y116[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y117                struct{ *g.DenseMatrixNumber[float64] }
	Y118[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y119                struct{ *g.DenseMatrixNumber[float64] }
	Y120[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y121                struct{ *g.DenseMatrixNumber[float64] }
	Y122[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y123                struct{ *g.DenseMatrixNumber[float64] }
	Y124[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y125                struct{ *g.DenseMatrixNumber[float64] }
	Y126[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y127                struct{ *g.DenseMatrixNumber[float64] }
	Y128[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y129                struct{ *g.DenseMatrixNumber[float64] }
	Y130[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y131                struct{ *g.DenseMatrixNumber[float64] }
	Y132[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y133                struct{ *g.DenseMatrixNumber[float64] }
	Y134[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y135                struct{ *g.DenseMatrixNumber[float64] }
	Y136[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y137                struct{ *g.DenseMatrixNumber[float64] }
	Y138[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y139                struct{ *g.DenseMatrixNumber[float64] }
	Y140[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y141                struct{ *g.DenseMatrixNumber[float64] }
	Y142[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y143                struct{ *g.DenseMatrixNumber[float64] }
	Y144[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y145                struct{ *g.DenseMatrixNumber[float64] }
	Y146[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y147                struct{ *g.DenseMatrixNumber[float64] }
	Y148[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y149                struct{ *g.DenseMatrixNumber[float64] }
	Y150[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y151                struct{ *g.DenseMatrixNumber[float64] }
	Y152[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y153                struct{ *g.DenseMatrixNumber[float64] }
	Y154[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y155                struct{ *g.DenseMatrixNumber[float64] }
	Y156[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y157                struct{ *g.DenseMatrixNumber[float64] }
	Y158[T num]         struct{ *g.DenseMatrixNumber[T] }
	Y159                struct{ *g.DenseMatrixNumber[float64] }
)
