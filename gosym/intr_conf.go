package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// regConf models one viper configuration: the values that were set, whatever their case, and zero values for the others.
// A value is read as the type that was set.
func regConf() {
	type conf map[string]Iface
	of := func(r *Run) conf {
		if c, ok := r.side["viper"].(conf); ok {
			return c
		}
		c := conf{}
		r.side["viper"] = c
		return c
	}
	p := "(*github.com/spf13/viper.Viper)."
	reg("github.com/spf13/viper.New", func(r *Run, fr *Frame, a []Value) Value {
		delete(r.side, "viper")
		return (*Value)(nil)
	})
	reg(p+"Set", func(r *Run, fr *Frame, a []Value) Value {
		of(r)[strings.ToLower(cstr(r, a[1]))] = a[2].(Iface)
		return nil
	})
	reg(p+"IsSet", func(r *Run, fr *Frame, a []Value) Value {
		_, ok := of(r)[strings.ToLower(cstr(r, a[1]))]
		return r.tt.Bool(ok)
	})
	get := func(name string, t types.Type) {
		reg(p+name, func(r *Run, fr *Frame, a []Value) Value {
			v, ok := of(r)[strings.ToLower(cstr(r, a[1]))]
			if !ok {
				return r.zero(t)
			}
			if !types.Identical(v.T, t) {
				r.unsupported("viper %s of a %s", name, v.T)
			}
			return v.V
		})
	}
	get("GetString", types.Typ[types.String])
	get("GetBool", types.Typ[types.Bool])
	get("GetInt", types.Typ[types.Int])
	get("GetInt32", types.Typ[types.Int32])
	get("GetInt64", types.Typ[types.Int64])
	get("GetUint", types.Typ[types.Uint])
	get("GetUint32", types.Typ[types.Uint32])
	get("GetUint64", types.Typ[types.Uint64])
	get("GetFloat64", types.Typ[types.Float64])
	reg(p+"Get", func(r *Run, fr *Frame, a []Value) Value { return of(r)[strings.ToLower(cstr(r, a[1]))] })

	// fmt.Sscan of one number
	reg("fmt.Sscan", func(r *Run, fr *Frame, a []Value) Value {
		args := a[1].(Slice)
		if len(args) != 1 {
			r.unsupported("fmt.Sscan of %d values", len(args))
		}
		to := args[0].(Iface)
		if pt, ok := to.T.(*types.Pointer); !ok || namedPath(pt.Elem()) != "math/big.Int" {
			r.unsupported("fmt.Sscan of %s", to.T)
		}
		s := a[0].(Str)
		if s.b == nil {
			v := new(big.Int)
			n, err := fmt.Sscan(s.s, v)
			if err != nil {
				return Tuple{i64(r, n), r.mkErr(err.Error())}
			}
			r.bigSet(to.V, r.bigConst(v))
			return Tuple{i64(r, 1), Iface{}}
		}
		digits, tt := r.tt.Bool(len(s.b) > 0), r.tt
		for _, c := range s.b {
			digits = tt.And(digits, tt.Ult(tt.Sub(c, tt.Const(8, '0')), tt.Const(8, 10)))
		}
		if !r.branch(digits) || r.branch(tt.Eq(s.b[0], tt.Const(8, '0'))) {
			r.unsupported("fmt.Sscan of text other than decimal digits")
		}
		v, _ := r.bigParse(s, 10)
		r.bigSet(to.V, v)
		return Tuple{i64(r, 1), Iface{}}
	})
}

// unitMap is time.unitMap
func unitMap(r *Run) *Map {
	m := NewMap()
	for _, u := range []struct {
		s string
		n int64
	}{{"ns", 1}, {"us", 1e3}, {"\u00b5s", 1e3}, {"\u03bcs", 1e3}, {"ms", 1e6}, {"s", 1e9}, {"m", 60e9}, {"h", 3600e9}} {
		r.mapSet(types.Typ[types.String], m, Str{s: u.s}, r.tt.Const(64, uint64(u.n)))
	}
	return m
}

func init() { regConf() }
