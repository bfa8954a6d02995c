package main

import (
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/tlwe"
)

type batchGate struct {
	name   string
	f      func([][2]*tlwe.TLWELv0, *cloudkey.CloudKey) []*tlwe.TLWELv0
	single func(a, b *tlwe.TLWELv0, ck *cloudkey.CloudKey) *tlwe.TLWELv0
	t      func(a, b bool) bool
}

var batch2 = []batchGate{
	{"BatchNAND", gates.BatchNAND, gates.NAND, func(a, b bool) bool { return !(a && b) }},
	{"BatchAND", gates.BatchAND, gates.AND, func(a, b bool) bool { return a && b }},
	{"BatchOR", gates.BatchOR, gates.OR, func(a, b bool) bool { return a || b }},
	{"BatchXOR", gates.BatchXOR, gates.XOR, func(a, b bool) bool { return a != b }},
	{"BatchNOR", gates.BatchNOR, gates.NOR, func(a, b bool) bool { return !(a || b) }},
	{"BatchXNOR", gates.BatchXNOR, gates.XNOR, func(a, b bool) bool { return a == b }},
}
