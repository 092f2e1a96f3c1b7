//go:build go1.25

package bitutil

// XORBytes xors the bytes in a and b into dst.
func XORBytes(dst, a, b []byte) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		dst[i] = a[i] ^ b[i]
	}
	return n
}
