package trace

import "strconv"

// I64 is the trace form of a 64-bit integer: limbs a*2^48 + b*2^24 + c.
func I64(n int64) []int64 { return []int64{n >> 48, (n >> 24) & 0xffffff, n & 0xffffff} }

// U64 is the trace form of an unsigned 64-bit integer (same limbs, the first in 0..65535).
func U64(n uint64) []int64 {
	return []int64{int64(n >> 48), int64((n >> 24) & 0xffffff), int64(n & 0xffffff)}
}

// UnI64 is the inverse of I64.
func UnI64(l []int64) int64 { return l[0]<<48 | l[1]<<24 | l[2] }

// Val is the trace form of a stored value: its bytes and the decimal integer they spell, if any.
func Val(b []byte) Ev {
	n := []int64{}
	if i, err := strconv.ParseInt(string(b), 10, 64); err == nil {
		n = I64(i)
	}
	return Ev{"b": V(b), "n": n}
}
