//go:build go1.21

package main

import (
	"encoding/binary"
	"strconv"
)

// Typ is a PostgreSQL type.
type Typ int

const (
	tText Typ = iota
	tName
	tOID
	tBool
	tInt8
	tInt4
	tInt2
	tTextArr
	tChar
)

func (t Typ) oid() int {
	switch t {
	case tName:
		return 19
	case tOID:
		return 26
	case tBool:
		return 16
	case tInt8:
		return 20
	case tInt4:
		return 23
	case tInt2:
		return 21
	case tTextArr:
		return 1009
	case tChar:
		return 18
	}
	return 25
}

func (t Typ) size() int {
	switch t {
	case tName:
		return 64
	case tOID, tInt4:
		return 4
	case tBool, tChar:
		return 1
	case tInt8:
		return 8
	case tInt2:
		return 2
	}
	return 0xffff
}

// Val is a value of a simulated database.
type Val struct {
	T    Typ
	S    string
	I    int64
	B    bool
	Null bool
	Arr  []string
	Ints []int64 // int arrays (conkey), not sent
}

// Col is a result column.
type Col struct {
	Name string
	T    Typ
}

// Result is the answer to a query.
type Result struct {
	Cols []Col
	Rows [][]Val
	Tag  string
}

func (v Val) encode(bin bool) []byte {
	if !bin {
		switch v.T {
		case tOID, tInt8, tInt4, tInt2:
			return []byte(strconv.FormatInt(v.I, 10))
		case tBool:
			if v.B {
				return []byte("t")
			}
			return []byte("f")
		}
		return []byte(v.S)
	}
	switch v.T {
	case tOID, tInt4:
		return binary.BigEndian.AppendUint32(nil, uint32(v.I))
	case tInt8:
		return binary.BigEndian.AppendUint64(nil, uint64(v.I))
	case tInt2:
		return binary.BigEndian.AppendUint16(nil, uint16(v.I))
	case tBool:
		if v.B {
			return []byte{1}
		}
		return []byte{0}
	}
	return []byte(v.S)
}

// Plan is a prepared query.
type Plan struct {
	fixed *Result
	sel   *selectStmt
	cat   *Catalog
	np    int
	cols  []Col
}

// NParams is the number of parameters.
func (p *Plan) NParams() int { return p.np }

// ParamOIDs lists the parameters' types.
func (p *Plan) ParamOIDs() []int {
	o := make([]int, p.np)
	for i := range o {
		o[i] = 19
	}
	return o
}

// Cols describes the result.
func (p *Plan) Cols() []Col {
	if p.fixed != nil {
		return p.fixed.Cols
	}
	return p.cols
}

// Run executes the plan.
func (p *Plan) Run(params []string) (*Result, error) {
	if p.fixed != nil {
		return p.fixed, nil
	}
	return p.cat.run(p, params)
}
