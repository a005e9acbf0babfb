#!/usr/bin/env python3
"""Writes harness/regtypes.go and harness/other/graphblas/types.go: matrix types for the
registry, none registered, and others of the same names."""
import os
N=160
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o='''package main

// Made by tools/mktypes.py: matrix types for the registry, none registered.

import (
	"reflect"

	g "github.com/rossmerr/graphblas"
	other "verifharness/other/graphblas"
)

type (
'''
for i in range(N): o+=f"\tY{i:03d}[T Num] struct{{ *g.DenseMatrixNumber[T] }}\n"
o+=''')

// regType is a matrix type that can be registered once in a process.
type regType struct {
	t      reflect.Type
	int_   func() g.Matrix[int]
	float_ func() g.Matrix[float64]
}

// twins are types of another package with the names of those in regTypes;
// every other one is not generic.
var twins = []regType{
'''
for i in range(N):
    y=f"Y{i:03d}"
    if i%2==0:
        o+=f"\t{{reflect.TypeOf(other.{y}[float64]{{}}), func() g.Matrix[int] {{ return &other.{y}[int]{{g.NewDenseMatrixN[int](2, 2)}} }}, func() g.Matrix[float64] {{ return &other.{y}[float64]{{g.NewDenseMatrixN[float64](2, 2)}} }}}},\n"
    else:
        o+=f"\t{{reflect.TypeOf(other.{y}{{}}), nil, func() g.Matrix[float64] {{ return &other.{y}{{g.NewDenseMatrixN[float64](2, 2)}} }}}},\n"
o+='''}

var regTypes = []regType{
'''
for i in range(N):
    y=f"Y{i:03d}"
    o+=f"\t{{reflect.TypeOf({y}[float64]{{}}), func() g.Matrix[int] {{ return &{y}[int]{{g.NewDenseMatrixN[int](2, 2)}} }}, func() g.Matrix[float64] {{ return &{y}[float64]{{g.NewDenseMatrixN[float64](2, 2)}} }}}},\n"
o+="}\n"
open(os.path.join(here,"harness/regtypes.go"),"w").write(o)

o='''package graphblas

// Made by tools/mktypes.py: matrix types with the names of those in
// harness/regtypes.go, and with names of the library's own, in a package of
// the library's name.

import g "github.com/rossmerr/graphblas"

type num interface{ int | float64 }

type (
	CSRMatrix    struct{ *g.DenseMatrixNumber[float64] }
	CSCMatrix[T num]    struct{ *g.DenseMatrixNumber[T] }
	SparseVector[T num] struct{ *g.DenseMatrixNumber[T] }
'''
for i in range(N): o+=f"\tY{i:03d}{'[T num]' if i%2==0 else ''} struct{{ *g.DenseMatrixNumber[{'T' if i%2==0 else 'float64'}] }}\n"
o+=")\n"
os.makedirs(os.path.join(here,"harness/other/graphblas"),exist_ok=True)
open(os.path.join(here,"harness/other/graphblas/types.go"),"w").write(o)
