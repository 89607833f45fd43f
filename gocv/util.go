package main

import (
	"go/ast"
	"go/token"
	"math/big"
	"strconv"
)

func posOf(e *ast.CallExpr) token.Pos {
	if e == nil {
		return token.NoPos
	}
	return e.Pos()
}
func neg2(n uint) *big.Int { return new(big.Int).Neg(pow2(n)) }
func itoaGo(n int) string  { return strconv.Itoa(n) }
