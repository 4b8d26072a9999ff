//overlay: internal/zz_verif_c03_test.go
//bounded: random suites (up to depth 4, Ordered and Serial containers, loop-generated siblings sharing a location) ordered in every configuration; the same suite declared again with loop-generated siblings in another order must come out the same
package internal

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/onsi/ginkgo/v2/types"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

type vdecl struct {
	text            string
	file            string
	line            int
	it              bool
	ordered, serial bool
	looped          bool // generated by a loop over a map together with its neighbours
	kids            []*vdecl
}

func vgen(r *rand.Rand, depth int, left *int, inOrdered bool, line *int) []*vdecl {
	var out []*vdecl
	for n := r.Intn(5) + 1; n > 0 && *left > 0; n-- {
		*line += 1 + r.Intn(3)
		d := &vdecl{text: fmt.Sprintf("t%d", *left), file: []string{"a.go", "b.go"}[r.Intn(2)], line: *line, it: depth == 0 || r.Intn(2) == 0}
		*left--
		d.serial = r.Intn(6) == 0 && !inOrdered
		if !d.it {
			d.ordered = r.Intn(4) == 0 && !inOrdered
			d.kids = vgen(r, depth-1, left, inOrdered || d.ordered, line)
			if len(d.kids) == 0 {
				d.it = true
				d.ordered = false
			}
		}
		out = append(out, d)
		for !inOrdered && r.Intn(4) == 0 && *left > 0 { // a loop-generated copy: same place, another text
			d.looped = true
			c := vcopy(d, fmt.Sprintf("t%d", *left))
			*left--
			out = append(out, c)
			d = c
		}
	}
	return out
}

func vcopy(d *vdecl, text string) *vdecl {
	c := *d
	c.text, c.looped, c.kids = text, true, nil
	for _, k := range d.kids {
		c.kids = append(c.kids, vcopy(k, k.text))
		c.kids[len(c.kids)-1].looped = k.looped
	}
	return &c
}

// vpermute declares the loop-generated siblings in another order (not inside Ordered containers)
func vpermute(r *rand.Rand, ds []*vdecl) []*vdecl {
	out := append([]*vdecl{}, ds...)
	for i := 0; i < len(out); {
		j := i + 1
		for j < len(out) && out[i].looped && out[j].looped && out[j].line == out[i].line && out[j].file == out[i].file {
			j++
		}
		r.Shuffle(j-i, func(a, b int) { out[i+a], out[i+b] = out[i+b], out[i+a] })
		i = j
	}
	for i, d := range out {
		c := *d
		if !c.ordered {
			c.kids = vpermute(r, d.kids)
		}
		out[i] = &c
	}
	return out
}

func vbuild(ds []*vdecl, parent *TreeNode, id *uint) {
	for _, d := range ds {
		*id++
		n := Node{ID: *id, NodeType: types.NodeTypeContainer, Text: d.text, CodeLocation: types.CodeLocation{FileName: d.file, LineNumber: d.line}, MarkedOrdered: d.ordered, MarkedSerial: d.serial}
		if d.it {
			n.NodeType = types.NodeTypeIt
		}
		c := &TreeNode{Node: n}
		parent.AppendChild(c)
		vbuild(d.kids, c, id)
	}
}

func vshow(ds []*vdecl) string {
	out := ""
	for _, d := range ds {
		out += fmt.Sprintf("%s@%s:%d", d.text, d.file, d.line)
		if d.ordered {
			out += " Ordered"
		}
		if d.serial {
			out += " Serial"
		}
		if !d.it {
			out += "{" + vshow(d.kids) + "}"
		}
		out += "; "
	}
	return out
}

func vcontainers(s Spec) (out []Node) {
	for _, n := range s.Nodes {
		if n.NodeType.Is(types.NodeTypeContainer | types.NodeTypeIt) {
			out = append(out, n)
		}
	}
	return
}

func TestVerifOrder(t *testing.T) {
	r := vrand()
	n := 0
	for ; n < vn(5000, 100000); n++ {
		left, line := r.Intn(30)+1, 0
		ds := vgen(r, 3, &left, false, &line)
		root, id := &TreeNode{}, uint(0)
		vbuild(ds, root, &id)
		specs := GenerateSpecsFromTreeRoot(root)
		conf := types.SuiteConfig{RandomSeed: int64(r.Intn(50)), RandomizeAllSpecs: r.Intn(2) == 0, ParallelTotal: 1 + r.Intn(2)*3, ParallelProcess: 1}
		what := fmt.Sprintf("suite %s seed=%d randomizeAll=%v procs=%d", vshow(ds), conf.RandomSeed, conf.RandomizeAllSpecs, conf.ParallelTotal)
		copied := append(Specs{}, specs...)
		par, ser := OrderSpecs(specs, conf)
		if !reflect.DeepEqual(copied, specs) {
			vfail(t, "%s: ordering changed the specs", what)
		}
		par2, ser2 := OrderSpecs(specs, conf)
		if !reflect.DeepEqual(par, par2) || !reflect.DeepEqual(ser, ser2) {
			vfail(t, "%s: ordering twice gives %v %v and %v %v", what, par, ser, par2, ser2)
		}
		conf2 := conf
		conf2.ParallelProcess = 3
		if conf.ParallelTotal > 1 {
			par2, ser2 = OrderSpecs(specs, conf2)
			if !reflect.DeepEqual(par, par2) || !reflect.DeepEqual(ser, ser2) {
				vfail(t, "%s: process 1 computes %v %v, process 3 %v %v", what, par, ser, par2, ser2)
			}
		}
		seen := map[int]int{}
		for gi, gs := range append(append(GroupedSpecIndices{}, par...), ser...) {
			serialGroup := gi >= len(par)
			if len(gs) == 0 {
				vfail(t, "%s: an empty group in %v %v", what, par, ser)
			}
			if want := conf.ParallelTotal > 1 && specs[gs[0]].Nodes.HasNodeMarkedSerial(); want != serialGroup {
				vfail(t, "%s: group %v serial=%v, should be %v", what, gs, serialGroup, want)
			}
			owner := uint(0)
			for k, ix := range gs {
				seen[ix]++
				o := specs[ix].Nodes.FirstNodeMarkedOrdered().ID
				if o == 0 && len(gs) > 1 {
					vfail(t, "%s: group %v holds a spec outside any Ordered container", what, gs)
				}
				if k > 0 && o != owner {
					vfail(t, "%s: group %v mixes Ordered containers", what, gs)
				}
				if k > 0 && ix <= gs[k-1] {
					vfail(t, "%s: group %v is not in declaration order", what, gs)
				}
				owner = o
			}
		}
		for ix := range specs {
			if seen[ix] != 1 {
				vfail(t, "%s: spec %d is placed %d times in %v %v", what, ix, seen[ix], par, ser)
			}
		}
		if len(seen) != len(specs) {
			vfail(t, "%s: groups hold specs that do not exist: %v %v", what, par, ser)
		}
		// contiguity, within the parallelisable and within the serial list
		for _, list := range []GroupedSpecIndices{par, ser} {
			closed, prev := map[uint]bool{}, uint(0)
			oclosed, oprev := map[uint]bool{}, uint(0)
			last := map[uint]int{}
			for _, gs := range list {
				for _, ix := range gs {
					if o := specs[ix].Nodes.FirstNodeMarkedOrdered().ID; o != oprev {
						if oclosed[o] && o != 0 {
							vfail(t, "%s: an Ordered container is split in %v %v", what, par, ser)
						}
						oclosed[oprev], oprev = true, o
					}
					if conf.RandomizeAllSpecs {
						continue
					}
					top := vcontainers(specs[ix])[0].ID
					if top != prev {
						if closed[top] {
							vfail(t, "%s: a top-level container is split in %v %v", what, par, ser)
						}
						closed[prev], prev = true, top
					}
					_ = last
				}
			}
		}
		// declared again with the loop-generated siblings in another order
		ds2 := vpermute(r, ds)
		root2, id2 := &TreeNode{}, uint(r.Intn(5))
		vbuild(ds2, root2, &id2)
		specs2 := GenerateSpecsFromTreeRoot(root2)
		par2, ser2 = OrderSpecs(specs2, conf)
		name := func(ss Specs, l GroupedSpecIndices) string {
			out := ""
			for _, gs := range l {
				out += "["
				for _, ix := range gs {
					for _, x := range vcontainers(ss[ix]) {
						out += x.Text + "/"
					}
					out += " "
				}
				out += "]"
			}
			return out
		}
		if a, b := name(specs, par)+"|"+name(specs, ser), name(specs2, par2)+"|"+name(specs2, ser2); a != b {
			vfail(t, "%s: order %s; another process that declares %s gets %s", what, a, vshow(ds2), b)
		}
	}
	fmt.Println("VERIF-CASES", n)
}
