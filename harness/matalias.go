package main

import "gonum.org/v1/gonum/mat"

type matVecDense = mat.VecDense
type matDense = mat.Dense
