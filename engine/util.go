package main

import "math/big"

type bigInt = big.Int

func newBigInt(v int64) *big.Int { return big.NewInt(v) }

type rsCodec struct{ k, m int }
