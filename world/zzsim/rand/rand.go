// Package rand replaces the global functions of math/rand in simulated code.
package rand

import "ustack/zzsim"

func u() uint64 {
	if zzsim.W() == nil {
		return 4
	}
	return zzsim.Env().Uint64()
}

func Int() int         { return int(u() >> 1) }
func Int63() int64     { return int64(u() >> 1) }
func Int31() int32     { return int32(u() >> 33) }
func Uint32() uint32   { return uint32(u() >> 32) }
func Uint64() uint64   { return u() }
func Float64() float64 { return float64(u()>>11) / (1 << 53) }
func Float32() float32 { return float32(u()>>40) / (1 << 24) }
func Seed(int64)       {}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(u() % uint64(n))
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(u() % uint64(n))
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(u() % uint64(n))
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(u()%uint64(i+1)))
	}
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(u())
	}
	return len(p), nil
}
