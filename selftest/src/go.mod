module github.com/rossmerr/graphblas

go 1.19
