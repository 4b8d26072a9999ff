//overlay: internal/zz_verif_c22_test.go
//about: random and concurrent use of the Ginkgo writer against a reference
//flags: -race
package internal

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

func TestVerifWriterSequential(t *testing.T) {
	r := vrand()
	n := 0
	for ; n < vn(3000, 60000); n++ {
		out := &bytes.Buffer{}
		w := NewWriter(out)
		kept, shown, trace := []byte{}, []byte{}, []string{}
		mode, lineStart := WriterModeStreamAndBuffer, true
		tees, teeWant := []*bytes.Buffer{}, []*[]byte{}
		attached := 0
		for j := r.Intn(14); j >= 0; j-- {
			switch r.Intn(8) {
			case 0:
				mode = WriterMode(r.Intn(2))
				w.SetMode(mode)
				trace = append(trace, fmt.Sprintf("SetMode(%d)", mode))
			case 1:
				w.Truncate()
				kept = kept[:0]
				trace = append(trace, "Truncate")
			case 2:
				b := &bytes.Buffer{}
				w.TeeTo(b)
				tees, teeWant = append(tees, b), append(teeWant, &[]byte{})
				trace = append(trace, "TeeTo")
			case 3:
				if r.Intn(3) == 0 {
					w.ClearTeeWriters()
					attached = len(tees)
					trace = append(trace, "ClearTeeWriters")
				}
			default:
				s := ""
				for k := r.Intn(7); k > 0; k-- {
					s += []string{"a", "bc", "\n", "\n", "  ", "é", "\x00"}[r.Intn(7)]
				}
				how := r.Intn(4)
				switch how {
				case 0:
					m, err := w.Write([]byte(s))
					if m != len(s) || err != nil {
						vfail(t, "after %v, Write(%q) returns %d, %v", trace, s, m, err)
					}
				case 1:
					w.Print(s)
				case 2:
					w.Printf("%s!", s)
					s += "!"
				case 3:
					w.Println(s)
					s += "\n"
				}
				trace = append(trace, fmt.Sprintf("write(%q)", s))
				kept = append(kept, s...)
				for k := attached; k < len(tees); k++ {
					*teeWant[k] = append(*teeWant[k], s...)
				}
				if mode == WriterModeStreamAndBuffer {
					for k := 0; k < len(s); k++ {
						if lineStart && s[k] != '\n' {
							shown = append(shown, "  "...)
						}
						shown = append(shown, s[k])
						lineStart = s[k] == '\n'
					}
				}
			}
			if w.Len() != len(kept) || !bytes.Equal(w.Bytes(), kept) {
				vfail(t, "after %v the writer holds %q (Len %d), should hold %q", trace, w.Bytes(), w.Len(), kept)
			}
			if b := w.Bytes(); len(b) > 0 {
				b[0]++
				if !bytes.Equal(w.Bytes(), kept) {
					vfail(t, "after %v, changing what Bytes returned changes the writer", trace)
				}
			}
			if !bytes.Equal(out.Bytes(), shown) {
				vfail(t, "after %v the output got %q, should have got %q", trace, out.Bytes(), shown)
			}
			for k := range tees {
				if !bytes.Equal(tees[k].Bytes(), *teeWant[k]) {
					vfail(t, "after %v tee %d got %q, should have got %q", trace, k, tees[k].Bytes(), *teeWant[k])
				}
			}
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func TestVerifWriterConcurrent(t *testing.T) {
	n := 0
	for ; n < vn(60, 600); n++ {
		out, tee := &bytes.Buffer{}, &bytes.Buffer{}
		w := NewWriter(out)
		w.TeeTo(tee)
		wg := sync.WaitGroup{}
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					w.Write([]byte(fmt.Sprintf("<%d:%d a\nb c>\n", g, k)))
					w.Len()
					w.Bytes()
				}
			}()
		}
		wg.Wait()
		check := func(what, s string) {
			next := [4]int{}
			for s != "" {
				ok := false
				for g := 0; g < 4; g++ {
					p := fmt.Sprintf("<%d:%d a\nb c>\n", g, next[g])
					if strings.HasPrefix(s, p) {
						s, ok = s[len(p):], true
						next[g]++
						break
					}
				}
				if !ok {
					vfail(t, "four concurrent writers: %s got interleaved or lost writes: %.60q", what, s)
				}
			}
			if next != [4]int{20, 20, 20, 20} {
				vfail(t, "four concurrent writers: %s lost writes: %v of 20 each", what, next)
			}
		}
		check("the buffer", string(w.Bytes()))
		check("the tee", tee.String())
		check("the output", strings.ReplaceAll(strings.ReplaceAll(out.String(), "  <", "<"), "  b", "b"))
	}
	fmt.Println("VERIF-CASES", n)
}
