#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=observe,hook_needed=hook)))
FM=["denseMatrix.go","csrMatrix.go","cscMatrix.go","denseVector.go","sparseVector.go"]

prop("C01","The locked matrix is linearizable and race free",
 "Calls that goroutines make concurrently on one locked matrix (reading, setting and updating an element, clearing, counting, copying, extracting a row or column, enumerating, and the arithmetic and comparison methods) give results that some one-at-a-time order of the calls, consistent with their real-time order, would give; no update is lost and no call sees a half-made change. No two of those calls race on memory. This holds whatever storage format is wrapped; an enumeration shows the matrix as it was at one instant of the call that asked for it, and the cursor that rewrites elements in place is excluded.",
 ["schedules","histories","inputs"],"every interleaving of every set of concurrent calls, for every wrapped format and element type",
 "No test calls the locked matrix from more than one goroutine; one race detector run would sample one schedule.",
 ["mutexMatrix.go"]+FM,
 [("every method takes the embedded RWMutex for the whole call","mutexMatrix.go"),("reads of the wrapped formats do not write","csrMatrix.go At, cscMatrix.go At, sparseVector.go AtVec")],
 ["results and return order of MutexMatrix methods","race detector reports"],
 [("matrix","the wrapped matrix, guarded by the RWMutex","mutexMatrix.go")])
prop("C02","A failing call on the locked matrix harms nobody else",
 "A call on a locked matrix that panics (an index out of range, operands of mismatched size, an update function or the wrapped storage itself that panics) panics in its own caller only, changes no element, and leaves the matrix unlocked. Every other call still in progress or made later returns and behaves as if the failed call had not been made. No mix of calls on one or several locked matrices, in any schedule, blocks for ever (calls made from inside another call, by an update function or an operand, aside).",
 ["schedules","histories","fault_sequences"],"every interleaving of failing and succeeding calls, with the panic at any point of the failing call",
 "The tests that expect a panic are single-goroutine and never use the matrix afterwards.",
 ["mutexMatrix.go"]+FM,[("deferred unlock in every method","mutexMatrix.go"),("bounds checks precede writes","csrMatrix.go, cscMatrix.go, denseMatrix.go"),("no method calls another locking method while it holds the lock","mutexMatrix.go")],
 ["panics seen by callers","matrix content after the run","tasks blocked at the end of the run"])
prop("C03","Results handed out by the locked matrix are private",
 "Whatever a locked matrix hands out (a copy, a row or column vector, a row array, a transpose, a product, sum, difference, scalar multiple or negative, an enumeration) keeps the values it had when it was returned, whatever any goroutine later does to the locked matrix. Changing something that was handed out never changes the locked matrix or anything else handed out. Using such a result without a lock never races with calls on the locked matrix.",
 ["schedules","histories"],"every interleaving of use of a handed-out result with later calls on the matrix, for every format",
 "Tests check that Copy is equal, never that it stays so while the source changes or that it shares no memory.",
 ["mutexMatrix.go"]+FM,[("Copy, RowsAt, ColumnsAt, RowsAtToArray build fresh storage","csrMatrix.go, cscMatrix.go, denseMatrix.go, denseVector.go, sparseVector.go"),("Enumerate iterates over a copy","mutexMatrix.go Enumerate")],
 ["element values of handed-out results at the end of the run","race detector reports"])
prop("C04","Concurrent readers do not disturb each other",
 "Goroutines that use matrices or vectors only as operands or readers (element access, rows and columns, enumeration, masks, comparison, copying, and the arithmetic, reduction, transpose, sorting, product and search operations writing to their own outputs) need no lock: each gets exactly the result it would get alone. No such use changes an operand or races on memory. This holds for every storage format and any number of goroutines.",
 ["schedules","inputs","histories"],"every interleaving of any set of read-only uses of shared matrices, for every format, operation and element type",
 "Tests are sequential, so a lookup that moves shared state, a shared scratch buffer or a hidden cache never shows.",
 ["operators.go","matrixRegistry.go","math/strassen/strassen.go","breadthfirst/breadthFirst.go","sort/bubble.go"]+FM,
 [("lookups keep no state in the matrix","csrMatrix.go columnIndex, cscMatrix.go rowIndex, sparseVector.go index"),("every operation allocates its own scratch","operators.go"),("registry lookups take the registry lock","matrixRegistry.go IsSparseMatrix")],
 ["results against the result of the same call alone","operands after the run","race detector reports"])
prop("C05","Strassen gives the exact product in every schedule",
 "The Strassen product of two matrices equals the ordinary matrix product exactly (element type arithmetic without rounding), whatever the storage formats, sizes (odd, even, rectangular, a power of two or not), crossover point and recursion depth. The order in which its concurrent sub-products start, run and finish never changes the result. Several such products running at once, sharing operands, do not affect one another.",
 ["schedules","inputs","configurations"],"every interleaving of the sub-product goroutines, at every recursion depth, size, crossover and format",
 "Tests multiply two small fixtures once each in whatever order the Go scheduler happens to pick.",
 ["math/strassen/strassen.go"],[("each sub-product is tagged with its number and placed by it","strassen.go subMatrixM, mPlace"),("sizes that cannot be halved fall back to the standard product","strassen.go MultiplyCrossoverPoint")],
 ["the returned matrix"])
prop("C06","Strassen always finishes and cleans up",
 "A Strassen product, cancelled at any instant or not at all, returns within a bounded number of steps in every schedule, with a matrix of the product's shape. Once it has returned, every goroutine it started also finishes; its operands are never changed. A product that was not cancelled before it returned is complete.",
 ["schedules","fault_sequences"],"every interleaving and every cancellation instant, including before the call and between sub-products",
 "No test cancels a Strassen product or counts goroutines.",
 ["math/strassen/strassen.go","operators.go"],[("the parent receives one result from each of the seven goroutines","strassen.go"),("cancelled loops still deliver a result","strassen.go subMatrixM")],
 ["return of the call","tasks alive at the end of the run","operands after the run"])
prop("C07","A monoid reduction is an exact in-order fold",
 "A monoid's streaming reduction folds, from the left and starting from the identity, whatever its operator, exactly the values handed to it before done is signalled, each once and in the order they were handed over, and when told it is done delivers that fold once and closes its output. This holds in every schedule, whether done is signalled by a message or by closing, whether values are handed over one by one or through a buffered channel, whether or not that channel is closed first, and however long sender or receiver stalls. After delivery its goroutine ends, and reductions sharing one monoid never mix.",
 ["schedules","histories"],"every interleaving of senders, the folding goroutine and the receiver, with stalls anywhere, for every monoid, buffer size and way of ending",
 "The one test hands over one value in one schedule.",
 ["binaryop/monoID.go"],[("one goroutine owns the running result","monoID.go Reduce"),("unbuffered hand-over, select between value and done","monoID.go Reduce")],
 ["values on the output channel","its closing","tasks alive at the end of the run"])
prop("C08","Reductions of matrices fold every element exactly once",
 "Reducing a matrix or vector to a scalar, or a matrix to a vector column by column, gives the monoid's fold, from the left and starting from its identity, of every unmasked stored element exactly once in enumeration order, in every schedule. Reductions running concurrently, sharing operands or monoid, do not affect one another. When the call returns, every goroutine it started also finishes.",
 ["schedules","inputs"],"every interleaving of producer, folder and caller, for every format, mask and monoid",
 "Tests use order-insensitive sums in one schedule.",
 ["operators.go","binaryop/monoID.go"],[("producer goroutine feeds the fold over an unbuffered channel, then signals done","operators.go ReduceMatrixToScalarWithMonoID"),("fold goroutine","binaryop/monoID.go Reduce")],
 ["the returned value","tasks alive at the end of the run"])
prop("C09","An interrupted reduction returns a prefix and leaks nothing",
 "A reduction whose context is cancelled at any instant (before the call included) still returns within a bounded number of steps. It gives the fold of some leading part of the unmasked stored elements in enumeration order: never one skipped, repeated or out of order; a reduction to a vector gives such a fold for every column. Whether a reduction is cancelled, or fails because its mask has the wrong size, no goroutine it started stays behind.",
 ["schedules","fault_sequences"],"every cancellation instant in every schedule, for every format, mask and monoid",
 "No test cancels a reduction.",
 ["operators.go","binaryop/monoID.go"],[("producer leaves its loop on cancellation and still signals done","operators.go ReduceMatrixToScalarWithMonoID"),("mask checked before goroutines start","operators.go")],
 ["the returned value","return of the call","tasks alive at the end of the run"])
prop("C10","Cancelling never leaves a cell half made or wrong",
 "When multiplication, addition, subtraction, their element-wise forms, apply, negation, transposition or scaling is cancelled at any instant, every cell of its output holds either the value it held before the call or the value the uncancelled call would leave there (element-wise addition may also leave the first operand's value). Cells that the mask protects keep their old value. The operands that are not the output are unchanged.",
 ["fault_sequences","inputs"],"every cancellation instant of every operation, for every format combination, mask and aliasing the operation supports",
 "Tests use contexts that are never cancelled during an operation.",
 ["operators.go"]+FM,[("cells are computed fully before they are stored","operators.go multiply"),("the context is polled between cells","operators.go"),("mask test next to every store","operators.go")],
 ["every cell of output and operands after the cancelled call"])
prop("C11","A cancelled operation stops at once",
 "After its context is cancelled, an operation in progress changes at most one more output cell and then returns; comparing, sorting, searching and rendering also return after a small fraction of the remaining work. An operation whose context is already cancelled leaves its output exactly as it was. No operation, cancelled at any instant, runs or blocks for ever.",
 ["fault_sequences","schedules"],"every cancellation instant of every operation that takes a context",
 "No test cancels anything.",
 ["operators.go","breadthfirst/breadthFirst.go","sort/bubble.go"],[("the context is polled in the innermost loop","operators.go"),("loops return rather than break on cancellation","operators.go")],
 ["output cells at the instant of cancellation and at return","steps between cancellation and return"])
prop("C12","Comparisons never lie when cancelled",
 "Comparing matrices under a context that is cancelled at any instant never gives a false positive: equal is answered true only if they are equal, less only if the first is less, greater only if it is greater, and a three-way comparison gives its true answer or 0. Rendering as a string gives a leading part of the full rendering. Without cancellation every answer is the true one, and the operands never change.",
 ["fault_sequences","inputs"],"every cancellation instant of every comparison, for every pair of matrices",
 "No test cancels a comparison.",
 ["operators.go"],[("less and greater discard an answer computed from cut strings","operators.go Less, Greater"),("compare re-checks the context between its stages","operators.go Compare"),("equal answers false when cancelled","operators.go Equal")],
 ["the answer of each comparison"])
prop("C13","Interrupted sorting loses and invents nothing",
 "Sorting the rows or columns of a matrix, cancelled at any instant, gives a matrix whose rows (or columns) are a permutation of the input's, and never changes the input. Sorting that was not cancelled gives them in ascending order. Several sorts of one matrix may run at once.",
 ["fault_sequences","schedules","inputs"],"every cancellation instant, for every matrix, and every interleaving of sorts sharing the input",
 "Two fixtures are sorted to the end.",
 ["sort/bubble.go","operators.go"],[("a swap is not interrupted","sort/bubble.go"),("a cancelled comparison never reports an order that asks for a swap","operators.go Compare")],
 ["the returned matrix and the input"])
prop("C14","Breadth-first search reports exact levels",
 "A breadth-first search over a graph with non-negative weights (of an element type that holds the weighted walk counts without overflow) calls its callback with one vector per level, whose non-zero entries are exactly the vertices first reached at that level, until the callback asks it to stop or there have been as many levels as vertices; it returns the last vector. If its context is cancelled at any instant the calls are the true levels up to some level, then at most one level with some of its vertices missing, then levels with no vertex; it still ends. The graph is never changed and searches sharing a graph do not affect one another.",
 ["fault_sequences","inputs","schedules"],"every graph, source, storage format and cancellation instant, and every interleaving of searches sharing a graph",
 "One graph is searched once, uncancelled.",
 ["breadthfirst/breadthFirst.go","operators.go"],[("visited vertices mask the product","breadthFirst.go Search"),("level loop bounded by the vertex count","breadthFirst.go Search")],
 ["vectors passed to the callback","the returned vector","the graph after the run"])
prop("C15","Wrapped contexts behave as the context they wrap",
 "A context wrapped with a blocking or non-blocking mode reports that mode, and is cancelled, expires, carries a deadline, an error and values exactly when and as the wrapped context does, nested wrapping included. Operations given a wrapped context keep every promise they keep for a plain one: the same result when it is not cancelled, and the same cell-wise interruption when it is cancelled or its deadline passes, whatever the clock does.",
 ["fault_sequences","configurations"],"every wrapped context, mode and nesting; every cancellation instant, deadline and clock jump",
 "The wrapper has no test that cancels it or lets it expire.",
 ["context.go","operators.go"],[("the wrapper embeds the wrapped context","context.go")],
 ["Done, Err, Deadline, Value of the wrapper","outputs of operations under it"])
prop("C16","A panicking callback corrupts nothing",
 "If caller-supplied code that runs on the caller's own goroutine panics at any of its calls (an update function, a map function, an applied operator, a mask or operand being read, a search callback), the panic reaches the caller with its own value. Every cell of the structures involved then holds its old value or the value a completed call would leave there (element-wise addition may also leave the first operand's value), and no value is stored in the cell being computed. The structures stay fully usable.",
 ["fault_sequences","inputs"],"a panic at every call of every kind of callback, in every operation and format",
 "No test lets a callback panic.",
 ["operators.go","breadthfirst/breadthFirst.go"]+FM,[("callbacks are evaluated before anything is stored","csrMatrix.go UpdateReturnPointer, cscMatrix.go, sparseVector.go Update, Map cursors"),("no recover in the library","operators.go")],
 ["recovered panic value","cells afterwards","later operations"])
prop("C17","The matrix registry is safe to use concurrently",
 "Matrix types may be registered while other goroutines register types, ask whether a matrix is sparse, and run operations; no such mix races, deadlocks or disturbs a result. Of several registrations of one type exactly one succeeds and the others panic. From the moment a registration returns, every later question about that type, with any element type, is answered sparse; a type never registered is never sparse, even if a registered type of another package has its name.",
 ["schedules","histories"],"every interleaving of registrations, queries and operations",
 "One test registers one type from one goroutine.",
 ["matrixRegistry.go"],[("registry maps guarded by a RWMutex","matrixRegistry.go"),("lookup by generic type name","matrixRegistry.go genericName")],
 ["panics of registrations","answers of IsSparseMatrix","race detector reports"],
 [("registry","registered type names","matrixRegistry.go")])
prop("C18","Containers stay well formed through any interrupted history",
 "After any sequence of operations on a matrix or vector of any format, some of them cut short by cancellation or by a panicking callback, the structure is well formed: enumerating it yields each stored element once, in range, with the value that reading that element gives, and every non-zero element is among them; a compressed format stores no zero and counts exactly its non-zero elements; a copy is identical. Every later uninterrupted operation gives exactly the result it would give on a freshly built structure with the same elements. A call that is rejected (an index out of range, an operand or mask of the wrong size) changes no element.",
 ["histories","fault_sequences"],"every history of operations and interruptions, for every format and element type",
 "Tests use fresh fixtures and complete operations.",
 FM+["operators.go"],[("insert and remove keep indices, values and starts in step","csrMatrix.go insert/remove, cscMatrix.go insert/remove, sparseVector.go insert/remove"),("map cursors account for removed elements","csrMatrix.go, cscMatrix.go, sparseVector.go Map")],
 ["enumeration, reads, counts, copies after each step"])
prop("C19","A live locked matrix can serve as a mask",
 "An operation or reduction may be masked by a locked matrix that other goroutines are changing. Every output cell then ends as the mask held at some moment of the call would have it (the new value if the mask was then open there, the old value if it was closed; element-wise addition may also leave the first operand's value). A reduction folds, in order, each element that was open throughout, none that was closed throughout, and each other at most once. A mask cell that does not change during the call is obeyed exactly. The mix never races, deadlocks or leaks.",
 ["schedules"],"every interleaving of a masked operation with writers of its mask",
 "No test shares a mask.",
 ["mutexMatrix.go","operators.go"],[("Element takes the read lock","mutexMatrix.go Element"),("operations read the mask once per cell","operators.go")],
 ["output cells against the values the mask held during the call","race detector reports"])

prop("C20","Results handed out by matrices, vectors and operations are private",
 "What a matrix, a vector or an operation returns (a copy, a row or column vector, a row array, a transpose, a sum, difference, product, scalar multiple or negative, a reduction to a vector, a Strassen product) shares no storage with the structures it was made from or with any other result. It may be given to another goroutine, which reads, changes and hands it on without a lock while its sources and other results are changed too. Each then holds exactly what its own history gives it, and no two of them race.",
 ["schedules","histories","inputs"],"every interleaving of the owners of a structure and of everything handed out from it, directly or from a result, for every format and element type",
 "Tests look at a result once, straight after the call, while nothing else changes.",
 FM+["operators.go","math/strassen/strassen.go"],[("Copy, RowsAt, ColumnsAt, RowsAtToArray, Transpose build fresh storage","denseMatrix.go, csrMatrix.go, cscMatrix.go, denseVector.go, sparseVector.go"),("operations store into an output of their own","operators.go")],
 ["elements of every structure at the end of the run","race detector reports"])

prop("C21","Code given to a call may call the library",
 "Code that a caller hands to a call (an operator, a mask, an operand, an update or map function, a search callback, the operator of a reduction) may itself call the library, on the goroutine it runs on or on others, using the outer call's operands or monoid as well, as long as it changes nothing that the outer call uses and does not use a locked matrix whose call it runs in. Inner and outer calls, to any depth, each give the result they would give alone. None blocks for ever, none races, and no goroutine stays behind.",
 ["histories","schedules","inputs"],"every nesting of calls in the code given to other calls, and every interleaving where inner calls run on other goroutines",
 "The operators and callbacks of the tests compute a value and call nothing.",
 ["operators.go","binaryop/monoID.go","breadthfirst/breadthFirst.go","math/strassen/strassen.go","mutexMatrix.go"],[("operations keep their state in local variables and hold no package-level lock while they call back","operators.go"),("each reduction has channels and a goroutine of its own","operators.go ReduceMatrixToScalarWithMonoID, binaryop/monoID.go Reduce")],
 ["results of inner and outer calls against the same calls alone","tasks blocked or alive at the end of the run","race detector reports"])
prop("C22","A cancelled or failed call harms no other call",
 "Calls that share operands, each under its own context, are independent. Cancelling one call's context at any instant, or a call failing (operands or mask of the wrong size, an index out of range, a panic in code it was given that runs on the caller's goroutine), changes nothing for any other call, be it earlier, later, running at the same time or nested within it: each other call gives exactly the result it would give alone, is not cut short, and neither blocks for ever nor races. Shared operands never change.",
 ["fault_sequences","schedules","histories"],"every mix of calls, contexts, cancellation instants and failures, and every interleaving",
 "No test cancels or fails a call while another runs, or uses the library afterwards.",
 ["operators.go","binaryop/monoID.go","breadthfirst/breadthFirst.go","math/strassen/strassen.go","sort/bubble.go"],[("calls share no scratch, no context and no lock","operators.go"),("each call polls the context it was given","operators.go")],
 ["results of the calls not cancelled against the same calls alone","shared operands after the run","tasks blocked or alive at the end of the run","race detector reports"])

prop("C23","Code given to a call runs once per element, and only during the call",
 "A call runs the code it is given (an update or map function, an operator, the operator of a reduction, a search callback) exactly once for each element that it is for: an update its one element, a map every element of its iteration, an apply every element the mask leaves open, a reduction every such element once in a left fold, a search every level until it is told to stop. An invalid index runs it not at all; after a panic of the code it is not run again by that call; a cancelled call runs it for some of the elements only, never twice. Runs of one call never overlap, nor do update functions on one locked matrix, and no code given to a call (masks and operands included) runs once the call has returned.",
 ["histories","schedules","fault_sequences"],"every interleaving of calls, cancellations and panics of the code given to them, for every kind of call, format and element type",
 "The functions that tests hand over keep no count, and nothing is cancelled or changed while they run.",
 FM+["operators.go","mutexMatrix.go","binaryop/monoID.go","breadthfirst/breadthFirst.go"],[("update functions run under the write lock, once","mutexMatrix.go Update; csrMatrix.go, cscMatrix.go UpdateReturnPointer"),("a reduction returns only when its fold has ended","operators.go ReduceMatrixToScalarWithMonoID, binaryop/monoID.go Reduce"),("one step of an iterator is one element","denseMatrix.go, csrMatrix.go, cscMatrix.go, sparseVector.go Map")],
 ["number, arguments and order of the runs of the code","race detector reports on plain variables that the code uses"])

PURE="This is a pure function of its input: single goroutine, no clock, no I/O, no callback fault and no interruption, so there is no schedule or fault for a simulator to decide."
N=[
("N01","All storage formats represent the same matrices","Dense, row-compressed, column-compressed and vector formats holding the same elements give the same answers to every query.",["denseMatrix.go","csrMatrix.go","cscMatrix.go","sparseVector.go"]),
("N02","Matrix arithmetic obeys its algebra","Sums, differences, products, scalar multiples and negatives have the mathematically defined elements for all operands and formats.",["operators.go"]),
("N03","Transposition and symmetry tests are exact","Transposing twice gives the original matrix; a matrix is reported symmetric or skew-symmetric exactly when it is.",["operators.go","math/symmetric/symmetric.go","math/skewsymmetric/skewSymmetric.go"]),
("N04","Row reduction gives the reduced row echelon form","The reduced form is the unique reduced row echelon form of the input, and the input is not changed.",["math/reduced/reduced.go"]),
("N05","Operators compute their documented functions","Every arithmetic, comparison, boolean and selection operator computes the documented function for all arguments.",["operators/arithmetic.go","operators/comparison.go","operators/boolean.go","operators/other.go","binaryop/operators.go"]),
("N06","Comparison is a total order","Uncancelled comparison of character matrices is a total order consistent with equality.",["operators.go"]),
("N07","Masks select cells","An uninterrupted masked operation changes exactly the cells that its mask leaves open.",["operators.go","mask.go"]),
("N08","Invalid indices and sizes are rejected","Every access outside the matrix and every operation on operands of mismatched sizes panics.",["denseMatrix.go","csrMatrix.go","cscMatrix.go","operators.go"]),
("N09","Vector resizing keeps the leading elements","Growing a dense vector appends zeros, shrinking keeps the leading elements.",["denseVector.go"]),
]
for id,t,s,f in N:
    prop(id,t,s,["inputs"],"every input","Tests sample a handful of inputs.",f,[("direct computation",f[0])],["returned values"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as fh:
    for p in P: fh.write(json.dumps(p)+"\n")
