package main

// item is how often a scenario is run for a property.
type item struct {
	Scenario string
	Plain    int // runs in the build without the race detector
	Race     int // runs in the build with it
	Batch    int // runs per process
	Thorough int // factor for the thorough tier
}

var scenarios = map[string]Scenario{
	"cancel-cells": opCancel{"cells"}, "cancel-stop": opCancel{"stop"}, "cancel-ctx": opCancel{"ctx"},
	"compare": cmpCancel{}, "sort": sortCancel{}, "bfs": bfsCancel{},
	"compare-ctx": cmpCancel{true}, "sort-ctx": sortCancel{true}, "bfs-ctx": bfsCancel{true}, "stop-ctx": stopOther{true},
	"reduce-ctx": reduce{"cancel", true}, "strassen-ctx": strass{"cancel", true},
	"stop-other": stopOther{},
	"monoid":     mono{}, "reduce": reduce{"whole", false}, "reduce-cancel": reduce{"cancel", false},
	"ctx-direct": ctxDirect{},
	"panic":      panics{}, "history": hist{},
	"handed": handedOut{}, "live-mask": liveMask{}, "reduce-mask": redMask{}, "registry": registry{},
	"reentry": nest{false}, "own-context": nest{true},
	"once":    calledOnce{},
	"readers": readers{}, "strassen": strass{"product", false}, "strassen-cancel": strass{"cancel", false},
	"mutex-lin": mutexHist{"lin"}, "mutex-fail": mutexHist{"fail"}, "mutex-private": mutexHist{"private"},
}

var plans = map[string][]item{
	"C01": {{"mutex-lin", 192000, 48000, 500, 40}},
	"C02": {{"mutex-fail", 192000, 36000, 500, 40}},
	"C03": {{"mutex-private", 160000, 40000, 500, 40}},
	"C04": {{"readers", 60000, 36000, 250, 40}},
	"C05": {{"strassen", 24000, 2400, 100, 40}},
	"C06": {{"strassen-cancel", 30000, 3000, 100, 40}},
	"C07": {{"monoid", 320000, 20000, 500, 40}},
	"C08": {{"reduce", 240000, 20000, 500, 40}},
	"C09": {{"reduce-cancel", 216000, 18000, 500, 40}},
	"C10": {{"cancel-cells", 400000, 25000, 500, 40}},
	"C11": {{"cancel-stop", 30000, 0, 250, 40}, {"stop-other", 15000, 0, 250, 40}},
	"C12": {{"compare", 480000, 30000, 500, 40}},
	"C13": {{"sort", 240000, 30000, 250, 40}},
	"C14": {{"bfs", 120000, 15000, 250, 40}},
	"C15": {{"cancel-ctx", 160000, 10000, 500, 40}, {"ctx-direct", 200000, 20000, 500, 40},
		{"compare-ctx", 30000, 2000, 500, 40}, {"sort-ctx", 15000, 1500, 250, 40}, {"bfs-ctx", 12000, 1000, 250, 40}, {"stop-ctx", 2000, 0, 125, 40},
		{"reduce-ctx", 20000, 2000, 500, 40}, {"strassen-ctx", 3000, 250, 50, 40}},
	"C16": {{"panic", 240000, 10000, 500, 40}},
	"C18": {{"history", 60000, 2500, 500, 40}},
	"C17": {{"registry", 90000, 30000, 60, 40}},
	"C20": {{"handed", 120000, 30000, 500, 40}},
	"C21": {{"reentry", 100000, 20000, 500, 40}},
	"C22": {{"own-context", 100000, 20000, 500, 40}},
	"C23": {{"once", 160000, 30000, 500, 40}},
	"C19": {{"live-mask", 200000, 40000, 500, 40}, {"reduce-mask", 60000, 4000, 500, 40}},
}

// rules say which runs count as non-trivial.
var rules = map[string]string{
	"C01": "Non-trivial: at least two calls overlap.",
	"C02": "Non-trivial: at least two calls overlap.",
	"C03": "Non-trivial: at least two calls overlap.",
	"C04": "Non-trivial: calls of two goroutines overlap.",
	"C05": "Non-trivial: at least one product ran concurrent sub-products.",
	"C06": "Non-trivial: at least one product ran concurrent sub-products.",
	"C07": "Non-trivial: at least one value was handed over.",
	"C08": "Non-trivial: several reductions at once, or more than one element to fold, or a mask of the wrong size.",
	"C09": "Non-trivial: several reductions at once, or more than one element to fold, or a mask of the wrong size.",
	"C10": "Non-trivial: the cancellation fell before the end of the call.",
	"C11": "Non-trivial: the cancellation fell before the end of the call.",
	"C12": "Non-trivial: the cancellation fell before the end of the call.",
	"C13": "Non-trivial: a sort was cancelled, or several ran at once.",
	"C14": "Non-trivial: a search was cancelled, or several ran at once.",
	"C15": "Non-trivial: a cancellation fell before the end of the call, several calls ran at once, or a chain of contexts holds a wrapper.",
	"C16": "Non-trivial: the call reached the code it was given.",
	"C17": "Non-trivial: several registrations of one type, or a question during a registration.",
	"C18": "Non-trivial: at least one operation of the history was cut short.",
	"C19": "Non-trivial: a mask cell changed during a call that reads it.",
	"C20": "Non-trivial: at least one result was handed out.",
	"C21": "Non-trivial: the code of a call called the library.",
	"C23": "Non-trivial: the code of a call ran.",
	"C22": "Non-trivial: at least one call was cancelled or failed.",
}
