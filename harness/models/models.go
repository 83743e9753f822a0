// Package models holds stand-ins for library functions the symbolic executor does not execute directly.
package models

import (
	"sync"
)

func assignTo(err error, target any) bool { return false }
func comparableDyn(x any) bool            { return true }
func swapElems(s any, i, j int)           {}
func lenOf(s any) int                     { return 0 }

// PoolGet models an always-empty pool.
func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// PoolPut drops the value.
func PoolPut(p *sync.Pool, x any) {}

// ErrorsAs follows errors.As.
func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	for {
		if assignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ErrorsIs follows errors.Is.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparableDyn(target)
	for {
		if cmp && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			if err = x.Unwrap(); err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// SortSlice is an insertion sort through less.
func SortSlice(x any, less func(i, j int) bool) {
	n := lenOf(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapElems(x, j, j-1)
		}
	}
}

func rSameType(x, y any) bool  { return false }
func rSamePlace(p, q any) bool { return false }
func rNumField(p any) int      { return 0 }

// ReflectDeepEqual follows reflect.DeepEqual, for values without cycles.
func ReflectDeepEqual(x, y any) bool {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	return rSameType(x, y) && deepEqual(rBox(x), rBox(y))
}

func deepEqual(p, q any) bool {
	switch rKind(p) {
	case rkSlice:
		if rNil(p) != rNil(q) || rLen(p) != rLen(q) {
			return false
		}
		for i := 0; i < rLen(p); i++ {
			if !deepEqual(rIndex(p, i), rIndex(q, i)) {
				return false
			}
		}
		return true
	case rkArray:
		for i := 0; i < rLen(p); i++ {
			if !deepEqual(rIndex(p, i), rIndex(q, i)) {
				return false
			}
		}
		return true
	case rkStruct:
		for i := 0; i < rNumField(p); i++ {
			if !deepEqual(rField(p, i), rField(q, i)) {
				return false
			}
		}
		return true
	case rkPtr:
		if rNil(p) || rNil(q) || rSamePlace(p, q) {
			return rNil(p) == rNil(q)
		}
		return deepEqual(rLoad(p), rLoad(q))
	case rkIface:
		return ReflectDeepEqual(rLoad(p), rLoad(q))
	case rkFunc:
		return rNil(p) && rNil(q)
	case rkMap:
		if rNil(p) != rNil(q) || rLen(p) != rLen(q) {
			return false
		}
		for i := 0; i < rLen(p); i++ {
			k, v := rMapAt(p, i)
			found := false
			for j := 0; j < rLen(q) && !found; j++ {
				l, w := rMapAt(q, j)
				if deepEqual(k, l) {
					if !deepEqual(v, w) {
						return false
					}
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	return rLoad(p) == rLoad(q)
}
