//overlay: internal/zz_verif_c04_test.go
package internal

import (
	"fmt"
	"os"
	"testing"
)

func TestVerifC04Serial(t *testing.T) {
	a, b := MakeIncrementingIndexCounter(), MakeIncrementingIndexCounter()
	for i := 0; i < 200; i++ {
		x, e1 := a()
		y, e2 := 0, error(nil)
		if i%2 == 0 {
			y, e2 = b()
		}
		if x != i || e1 != nil || e2 != nil || i%2 == 0 && y != i/2 {
			s := fmt.Sprintf("call %d of a serial index counter gave (%d, %v); another counter gave (%d, %v)", i, x, e1, y, e2)
			os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
			t.Fatal(s)
		}
	}
	fmt.Println("VERIF-CASES", 200)
}
