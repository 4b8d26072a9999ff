//overlay: internal/zz_verif_c18_test.go
//bounded: random spec trees (up to depth 5, every node type, up to 40 nodes) expanded and compared with the context of each subject read off the tree; storage separation checked by overwriting each spec
package internal

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/onsi/ginkgo/v2/types"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

var vsetups = []types.NodeType{types.NodeTypeBeforeEach, types.NodeTypeJustBeforeEach, types.NodeTypeAfterEach, types.NodeTypeJustAfterEach, types.NodeTypeBeforeAll, types.NodeTypeAfterAll, types.NodeTypeReportBeforeEach, types.NodeTypeReportAfterEach}

func vtree(r *rand.Rand, parent *TreeNode, depth int, left *int, id *uint) {
	for n := r.Intn(6); n > 0 && *left > 0; n-- {
		*left--
		*id++
		nt := types.NodeTypeIt
		switch k := r.Intn(5); {
		case k < 2:
			nt = vsetups[r.Intn(len(vsetups))]
		case k < 4 && depth > 0:
			nt = types.NodeTypeContainer
		}
		c := &TreeNode{Node: Node{ID: *id, NodeType: nt, Text: fmt.Sprintf("n%d", *id), MarkedSerial: r.Intn(5) == 0, NestingLevel: r.Intn(3) - 1, Labels: Labels{fmt.Sprint(*id)}}}
		parent.AppendChild(c)
		if nt == types.NodeTypeContainer {
			vtree(r, c, depth-1, left, id)
		}
	}
}

func vsnap(t *TreeNode) string {
	out := fmt.Sprintf("(%v %p", t.Node, t.Parent)
	for _, c := range t.Children {
		out += vsnap(c)
	}
	return out + ")"
}

type vnode struct {
	id    uint
	level int
	nt    types.NodeType
}

// vwant: what each subject should list: for every enclosing level, outermost first, the setup and
// teardown nodes declared there before the way down, the way down itself, and, innermost first, those after
func vwant(t *TreeNode, level int, l, r []vnode, out *[][]vnode) {
	for i, c := range t.Children {
		if c.Node.NodeType != types.NodeTypeIt && c.Node.NodeType != types.NodeTypeContainer {
			continue
		}
		var a, b []vnode
		for j, s := range t.Children {
			if s.Node.NodeType == types.NodeTypeIt || s.Node.NodeType == types.NodeTypeContainer {
				continue
			}
			v := vnode{s.Node.ID, level, s.Node.NodeType}
			if j < i {
				a = append(a, v)
			} else {
				b = append(b, v)
			}
		}
		nl := append(append(append([]vnode{}, l...), a...), vnode{c.Node.ID, level, c.Node.NodeType})
		nr := append(append([]vnode{}, b...), r...)
		if c.Node.NodeType == types.NodeTypeIt {
			*out = append(*out, append(nl, nr...))
		} else {
			vwant(c, level+1, nl, nr, out)
		}
	}
}

func vway(l []vnode) (out []vnode) {
	for _, v := range l {
		if v.nt == types.NodeTypeContainer || v.nt == types.NodeTypeIt {
			out = append(out, v)
		}
	}
	return out
}

func vothers(l []vnode) map[int][]vnode {
	out := map[int][]vnode{}
	for _, v := range l {
		if v.nt != types.NodeTypeContainer && v.nt != types.NodeTypeIt {
			out[v.level] = append(out[v.level], v)
		}
	}
	return out
}

func TestVerifExpand(t *testing.T) {
	r := vrand()
	n := 0
	for ; n < vn(6000, 100000); n++ {
		root, left, id := &TreeNode{}, r.Intn(40)+1, uint(r.Intn(50))
		vtree(r, root, 4, &left, &id)
		before := vsnap(root)
		specs := GenerateSpecsFromTreeRoot(root)
		if vsnap(root) != before {
			vfail(t, "expanding changed the tree %s", before)
		}
		var want [][]vnode
		vwant(root, 0, nil, nil, &want)
		var got [][]vnode
		for _, s := range specs {
			var g []vnode
			for _, x := range s.Nodes {
				g = append(g, vnode{x.ID, x.NestingLevel, x.NodeType})
			}
			got = append(got, g)
			if s.Skip {
				vfail(t, "tree %s: an expanded spec is marked skipped", before)
			}
		}
		// the property fixes the containers' order and which nodes are listed
		if len(got) != len(want) {
			vfail(t, "tree %s expands to %d specs, it has %d subjects", before, len(got), len(want))
		}
		for i := range got {
			// the way down in order; the others each once, those of one level in declaration order
			if !reflect.DeepEqual(vway(got[i]), vway(want[i])) || !reflect.DeepEqual(vothers(got[i]), vothers(want[i])) {
				vfail(t, "tree %s: spec %d (id level type) is %v, should be %v", before, i, got[i], want[i])
			}
			for _, x := range specs[i].Nodes {
				if x.Text != fmt.Sprintf("n%d", x.ID) || len(x.Labels) != 1 || x.Labels[0] != fmt.Sprint(x.ID) {
					vfail(t, "tree %s: spec %d holds an altered node %v", before, i, x)
				}
			}
		}
		// storage: overwrite and extend each spec's list, nothing else may change
		var snaps []string
		for _, s := range specs {
			snaps = append(snaps, fmt.Sprint(s.Nodes))
		}
		for i := range specs {
			old := append(Nodes{}, specs[i].Nodes...)
			for k := range specs[i].Nodes {
				specs[i].Nodes[k] = Node{ID: 99999}
			}
			_ = append(specs[i].Nodes, Node{ID: 88888})
			for j := range specs {
				if j != i && fmt.Sprint(specs[j].Nodes) != snaps[j] {
					vfail(t, "tree %s: changing spec %d changes spec %d", before, i, j)
				}
			}
			copy(specs[i].Nodes, old)
		}
		if vsnap(root) != before {
			vfail(t, "changing the specs changed the tree %s", before)
		}
		// the chain of ancestors of every node
		var walk func(x *TreeNode, chain []uint)
		walk = func(x *TreeNode, chain []uint) {
			for _, c := range x.Children {
				cc := append(append([]uint{}, chain...), c.Node.ID)
				var g []uint
				for _, y := range c.AncestorNodeChain() {
					g = append(g, y.ID)
				}
				if !reflect.DeepEqual(g, cc) {
					vfail(t, "tree %s: ancestors of %d are %v, should be %v", before, c.Node.ID, g, cc)
				}
				walk(c, cc)
			}
		}
		walk(root, nil)
	}
	fmt.Println("VERIF-CASES", n)
}
