//overlay: internal/zz_gover_c04.go
package internal

// The k-th index handed out by an in-process counter is k.
func goverCounterClient(n int) bool {
	next := MakeIncrementingIndexCounter()
	ok := true
	for i := 0; i < n; i++ {
		v, err := next()
		ok = ok && v == i && err == nil
	}
	return ok
}

// Two counters do not share state.
func goverCounterClient2(n int) bool {
	a := MakeIncrementingIndexCounter()
	b := MakeIncrementingIndexCounter()
	ok := true
	for i := 0; i < n; i++ {
		v, err := a()
		w, err2 := b()
		ok = ok && v == i && err == nil && w == i && err2 == nil
	}
	return ok
}
