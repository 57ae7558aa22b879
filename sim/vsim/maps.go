package vsim

import (
	"fmt"
	"image"
	"reflect"
	"sort"
)

func lessKey(a, b any) bool {
	switch x := a.(type) {
	case int:
		if y, ok := b.(int); ok {
			return x < y
		}
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case image.Point:
		if y, ok := b.(image.Point); ok {
			if x.Y != y.Y {
				return x.Y < y.Y
			}
			return x.X < y.X
		}
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch {
		case va.CanInt():
			return va.Int() < vb.Int()
		case va.CanUint() && va.Kind() != reflect.Uintptr:
			return va.Uint() < vb.Uint()
		case va.CanFloat():
			return va.Float() < vb.Float()
		case va.Kind() == reflect.String:
			return va.String() < vb.String()
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// MapKeys returns m's keys in an order the simulator chooses.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) == 1 {
		return keys
	}
	sort.Slice(keys, func(i, j int) bool { return lessKey(keys[i], keys[j]) })
	n := len(keys)
	if !inSim() {
		return keys
	}
	switch Choose(3) {
	case 1: // rotation
		o := Choose(n)
		keys = append(append(make([]K, 0, n), keys[o:]...), keys[:o]...)
	case 2: // shuffle from one drawn seed
		seed := uint64(Choose(1 << 30))
		for i := n - 1; i > 0; i-- {
			seed = Mix(seed)
			j := int(seed % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// MapSeq walks m in an order the simulator chooses.
func MapSeq[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for _, k := range MapKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeySeq walks m's keys.
func MapKeySeq[M ~map[K]V, K comparable, V any](m M) func(yield func(K) bool) {
	return func(yield func(K) bool) {
		for _, k := range MapKeys(m) {
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}
