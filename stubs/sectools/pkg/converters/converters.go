// Package converters is a stand-in for github.com/hyp3rd/sectools v1.2.6's
// pkg/converters, which cannot be fetched in this sandbox. The code under test
// uses it only for range-checked integer conversion (value or error), which is
// all this file provides.
package converters

import (
	"fmt"
	"math"
)

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func fail[T integer](v T, to string) error {
	return fmt.Errorf("converters: %v does not fit in %s", v, to)
}

// ToUint32 converts v to uint32, or fails when it is out of range.
func ToUint32[T integer](v T) (uint32, error) {
	if v < 0 || uint64(v) > math.MaxUint32 {
		return 0, fail(v, "uint32")
	}

	return uint32(v), nil
}

// ToUint converts v to uint, or fails when it is out of range.
func ToUint[T integer](v T) (uint, error) {
	if v < 0 {
		return 0, fail(v, "uint")
	}

	return uint(v), nil
}

// ToInt converts v to int, or fails when it is out of range.
func ToInt[T integer](v T) (int, error) {
	if v > 0 && uint64(v) > math.MaxInt {
		return 0, fail(v, "int")
	}

	return int(v), nil
}

// ToInt64 converts v to int64, or fails when it is out of range.
func ToInt64[T integer](v T) (int64, error) {
	if v > 0 && uint64(v) > math.MaxInt64 {
		return 0, fail(v, "int64")
	}

	return int64(v), nil
}
