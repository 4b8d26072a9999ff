//overlay: internal/zz_verif_c02_test.go
//about: random trees against a direct reading of the nested focus rule
package internal

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/onsi/ginkgo/v2/types"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

type vtree struct {
	n        Node
	id       *TreeNode
	parent   *vtree
	children []*vtree
}

func TestVerifC02(t *testing.T) {
	r := vrand()
	n := vn(30000, 500000)
	for c := 0; c < n; c++ {
		id := uint(0)
		pf, pp := 2+r.Intn(4), 2+r.Intn(8)
		var build func(d int, p *vtree, tp *TreeNode) *vtree
		build = func(d int, p *vtree, tp *TreeNode) *vtree {
			id++
			tn := &TreeNode{Parent: tp, Node: Node{ID: id, NodeType: types.NodeTypeContainer, Text: fmt.Sprint("n", id), NestingLevel: d, MarkedFocus: r.Intn(pf) == 0, MarkedPending: r.Intn(pp) == 0, MarkedSerial: r.Intn(4) == 0, MarkedOrdered: r.Intn(4) == 0}}
			v := &vtree{n: tn.Node, id: tn, parent: p}
			if d < 4 {
				for i, k := 0, r.Intn(4-d/2); i < k; i++ {
					ch := build(d+1, v, tn)
					v.children = append(v.children, ch)
					tn.Children = append(tn.Children, ch.id)
				}
			}
			return v
		}
		root := build(0, nil, nil)
		// effective focus: focused, not shielded by a pending node at or above, no effectively focused node below
		exp := map[*vtree]bool{}
		var eff func(v *vtree) bool
		eff = func(v *vtree) bool {
			if v.n.MarkedPending {
				return false
			}
			below := false
			for _, ch := range v.children {
				if eff(ch) {
					below = true
				}
			}
			exp[v] = v.n.MarkedFocus && !below
			return v.n.MarkedFocus || below
		}
		eff(root)
		ApplyNestedFocusPolicyToTree(root.id)
		var show func(v *vtree) string
		show = func(v *vtree) string {
			s := fmt.Sprintf("%s(focus=%v pending=%v)[", v.n.Text, v.n.MarkedFocus, v.n.MarkedPending)
			for _, ch := range v.children {
				s += show(ch)
			}
			return s + "]"
		}
		var check func(v *vtree, shielded bool)
		check = func(v *vtree, shielded bool) {
			shielded = shielded || v.n.MarkedPending
			got := v.id.Node
			if !shielded && got.MarkedFocus != exp[v] {
				vfail(t, "%s: MarkedFocus=%v, expected %v in %s", v.n.Text, got.MarkedFocus, exp[v], show(root))
			}
			if got.MarkedFocus && !v.n.MarkedFocus {
				vfail(t, "%s: focus was added in %s", v.n.Text, show(root))
			}
			got.MarkedFocus = v.n.MarkedFocus
			if !reflect.DeepEqual(got, v.n) {
				vfail(t, "%s: %+v became %+v", v.n.Text, v.n, got)
			}
			if len(v.id.Children) != len(v.children) {
				vfail(t, "%s: children changed in %s", v.n.Text, show(root))
			}
			for i, ch := range v.children {
				if v.id.Children[i] != ch.id {
					vfail(t, "%s: children changed in %s", v.n.Text, show(root))
				}
				check(ch, shielded)
			}
		}
		check(root, false)
	}
	fmt.Println("VERIF-CASES", n)
}
