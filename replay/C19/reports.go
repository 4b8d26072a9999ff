//overlay: types/zz_verif_c19_test.go
//about: random spec reports and every enumeration value
package types

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
)
func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}
func vtrip[T comparable](t *testing.T, vals []T) {
	seen := map[string]T{}
	for _, v := range vals {
		s := fmt.Sprintf("%v", v)
		if o, ok := seen[s]; ok && o != v {
			vfail(t, "%T: two values are both written %q", v, s)
		}
		seen[s] = v
		b, err := json.Marshal(v)
		var w T
		if err == nil {
			err = json.Unmarshal(b, &w)
		}
		if err != nil || w != v {
			vfail(t, "%T %q is written %s in JSON and read back as %v (%v)", v, s, b, w, err)
		}
	}
}

func TestVerifC19(t *testing.T) {
	r := vrand()
	n := vn(30000, 400000)
	states := []SpecState{SpecStateInvalid, SpecStatePending, SpecStateSkipped, SpecStatePassed, SpecStateFailed, SpecStateAborted, SpecStatePanicked, SpecStateInterrupted, SpecStateTimedout}
	nts := []NodeType{NodeTypeInvalid, NodeTypeContainer, NodeTypeIt, NodeTypeBeforeEach, NodeTypeJustBeforeEach, NodeTypeAfterEach, NodeTypeJustAfterEach, NodeTypeBeforeAll, NodeTypeAfterAll, NodeTypeBeforeSuite, NodeTypeSynchronizedBeforeSuite, NodeTypeAfterSuite, NodeTypeSynchronizedAfterSuite, NodeTypeReportBeforeEach, NodeTypeReportAfterEach, NodeTypeReportBeforeSuite, NodeTypeReportAfterSuite, NodeTypeCleanupInvalid, NodeTypeCleanupAfterEach, NodeTypeCleanupAfterAll, NodeTypeCleanupAfterSuite}
	vtrip(t, states)
	vtrip(t, nts)
	vtrip(t, []FailureNodeContext{FailureNodeContextInvalid, FailureNodeIsLeafNode, FailureNodeAtTopLevel, FailureNodeInContainer})
	vtrip(t, []SpecEventType{SpecEventInvalid, SpecEventByStart, SpecEventByEnd, SpecEventNodeStart, SpecEventNodeEnd, SpecEventSpecRepeat, SpecEventSpecRetry})
	vtrip(t, []ReportEntryVisibility{ReportEntryVisibilityAlways, ReportEntryVisibilityFailureOrVerbose, ReportEntryVisibilityNever})
	labels := []string{"a", "b", "c", "A"}
	texts := []string{"", "x", "y z", "w"}
	for c := 0; c < n; c++ {
		var rs SpecReports
		for i, k := 0, r.Intn(6); i < k; i++ {
			s := SpecReport{State: states[r.Intn(len(states))], LeafNodeType: nts[r.Intn(len(nts))], MaxFlakeAttempts: r.Intn(3), MaxMustPassRepeatedly: r.Intn(3), NumAttempts: r.Intn(4), LeafNodeText: texts[r.Intn(4)]}
			for j, m := 0, r.Intn(3); j < m; j++ {
				s.ContainerHierarchyTexts = append(s.ContainerHierarchyTexts, texts[r.Intn(4)])
				var l []string
				for q, p := 0, r.Intn(3); q < p; q++ {
					l = append(l, labels[r.Intn(4)])
				}
				s.ContainerHierarchyLabels = append(s.ContainerHierarchyLabels, l)
			}
			for q, p := 0, r.Intn(3); q < p; q++ {
				s.LeafNodeLabels = append(s.LeafNodeLabels, labels[r.Intn(4)])
			}
			s.Failure = Failure{Message: texts[r.Intn(4)], Location: CodeLocation{FileName: texts[r.Intn(4)], LineNumber: r.Intn(9)}}
			s.LeafNodeLocation = CodeLocation{FileName: texts[r.Intn(4)], LineNumber: r.Intn(9)}
			rs = append(rs, s)
		}
		sm, nm := SpecState(0), NodeType(0)
		for i := 0; i < r.Intn(4); i++ {
			sm |= states[r.Intn(len(states))]
			nm |= nts[r.Intn(len(nts))]
		}
		before := fmt.Sprintf("%+v", rs)
		var ws, wn SpecReports
		fl, rp := 0, 0
		for _, s := range rs {
			if s.State&sm != 0 {
				ws = append(ws, s)
			}
			if s.LeafNodeType&nm != 0 {
				wn = append(wn, s)
			}
			if s.MaxFlakeAttempts > 1 && s.State == SpecStatePassed && s.NumAttempts > 1 {
				fl++
			}
			if s.MaxMustPassRepeatedly > 1 && s.Failed() && s.NumAttempts > 1 {
				rp++
			}
			tx := append([]string{}, s.ContainerHierarchyTexts...)
			if s.LeafNodeText != "" {
				tx = append(tx, s.LeafNodeText)
			}
			if s.FullText() != strings.Join(tx, " ") {
				vfail(t, "FullText of %q %q is %q", s.ContainerHierarchyTexts, s.LeafNodeText, s.FullText())
			}
			ls := []string{}
			seen := map[string]bool{}
			for _, l := range append(append([][]string{}, s.ContainerHierarchyLabels...), s.LeafNodeLabels) {
				for _, x := range l {
					if !seen[x] {
						seen[x] = true
						ls = append(ls, x)
					}
				}
			}
			if !reflect.DeepEqual(append([]string{}, s.Labels()...), ls) {
				vfail(t, "Labels of %q %q is %q, expected %q", s.ContainerHierarchyLabels, s.LeafNodeLabels, s.Labels(), ls)
			}
			if m, err := s.MatchesLabelFilter("b"); err != nil || m != seen["b"] {
				vfail(t, "MatchesLabelFilter(b) of a report labelled %q is %v, %v", ls, m, err)
			}
			if s.Failed() != (s.State == SpecStateFailed || s.State == SpecStateAborted || s.State == SpecStatePanicked || s.State == SpecStateInterrupted || s.State == SpecStateTimedout) {
				vfail(t, "a report in state %v has Failed()=%v", s.State, s.Failed())
			}
			if s.FailureMessage() != s.Failure.Message || s.FailureLocation() != s.Failure.Location || s.FileName() != s.LeafNodeLocation.FileName || s.LineNumber() != s.LeafNodeLocation.LineNumber {
				vfail(t, "queries of %+v disagree with it", s)
			}
		}
		d := func(l SpecReports) string { return fmt.Sprintf("%+v", append(SpecReports{}, l...)) }
		if g := rs.WithState(sm); d(g) != d(ws) {
			vfail(t, "WithState(%d) of %s is %s", sm, before, d(g))
		}
		if g := rs.WithLeafNodeType(nm); d(g) != d(wn) {
			vfail(t, "WithLeafNodeType(%d) of %s is %s", nm, before, d(g))
		}
		if g := rs.CountWithState(sm); g != len(ws) {
			vfail(t, "CountWithState(%d) of %s is %d", sm, before, g)
		}
		if rs.CountOfFlakedSpecs() != fl || rs.CountOfRepeatedSpecs() != rp {
			vfail(t, "flaked/repeated of %s are %d/%d, expected %d/%d", before, rs.CountOfFlakedSpecs(), rs.CountOfRepeatedSpecs(), fl, rp)
		}
		if after := fmt.Sprintf("%+v", rs); after != before {
			vfail(t, "querying changed the reports: %s became %s", before, after)
		}
	}
	fmt.Println("VERIF-CASES", n)
}
