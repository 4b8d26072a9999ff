package internal

// A random suite declared, built and run through the real Suite; every body logs what happens to it.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

type simNode struct {
	kind                         types.NodeType
	id                           int
	level                        int // number of containers around it
	parent                       *simNode
	kids                         []*simNode
	ordered, cont, pending, skip bool
	serial, once                 bool
	flake, repeat                int
	runs                         int
	from                         *simNode // for a cleanup: the node that registered it
	order                        int      // declaration (or registration) order
	outcomes                     []string // scripted outcomes per run; random when exhausted
	text                         string
	seen                         types.Report // by a suite report node, last time it ran
}

func (n *simNode) String() string {
	if n == nil {
		return "nil"
	}
	s := fmt.Sprintf("%s#%d@%d", n.kind, n.id, n.level)
	for _, f := range []struct {
		b bool
		s string
	}{{n.ordered, "Ordered"}, {n.cont, "ContinueOnFailure"}, {n.pending, "Pending"}, {n.skip, "filtered"}, {n.once, "OncePerOrdered"}} {
		if f.b {
			s += "," + f.s
		}
	}
	if n.flake > 0 {
		s += fmt.Sprintf(",FlakeAttempts(%d)", n.flake)
	}
	if n.repeat > 0 {
		s += fmt.Sprintf(",MustPassRepeatedly(%d)", n.repeat)
	}
	if n.from != nil {
		s += fmt.Sprintf(",from #%d", n.from.id)
	}
	return s
}

type simEvent struct {
	what    string // "willrun" "node" "attempt" "didrun" "end"
	node    *simNode
	outcome string // pass fail panic skip abort
	attempt int
	run     int // of a node: how often it has run
	report  types.SpecReport
	suite   types.Report
}

func (e simEvent) String() string {
	switch e.what {
	case "node":
		return fmt.Sprintf("    %s: %s", e.node, e.outcome)
	case "attempt":
		return fmt.Sprintf("  attempt %d over", e.attempt)
	case "willrun", "didrun":
		return fmt.Sprintf("%s %s %q: %s, %d attempts", e.what, e.report.LeafNodeType, e.report.LeafNodeText, e.report.State, e.report.NumAttempts)
	}
	return e.what
}

type simOpts struct {
	pFail, pSkip, pPanic, pAbort, pCleanup float64
	pOrdered, pPending, pFilter            float64
	pOnce, pCont                           float64
	flakes, repeats, mixed                 bool
	suiteNodes, reportNodes, syncNodes     bool
	maxDepth, maxSpecs                     int
}

type sim struct {
	reporters.NoopReporter
	r       *rand.Rand
	o       simOpts
	root    *simNode
	all     []*simNode
	byText  map[string]*simNode
	suite   *Suite
	failer  *Failer
	events  []simEvent
	cfg     types.SuiteConfig
	success bool
	intr    *simInterrupt
	left    int
	pushErr error
	hook    func(n *simNode) string // may decide an outcome
	quiet   bool
	nReg    int
	regs    []simReg
	client  parallel_support.Client
}

// a cleanup that was registered, and during which attempt of which spec
type simReg struct {
	node    *simNode
	spec    string
	attempt int
	run     int // of a node: how often it has run
}

type simInterrupt struct {
	st interrupt_handler.InterruptStatus
}

func (i *simInterrupt) Status() interrupt_handler.InterruptStatus { return i.st }

func (s *sim) WillRun(r types.SpecReport) {
	s.events = append(s.events, simEvent{what: "willrun", report: r, node: s.byText[r.LeafNodeText]})
}
func (s *sim) DidRun(r types.SpecReport) {
	s.events = append(s.events, simEvent{what: "didrun", report: r, node: s.byText[r.LeafNodeText]})
}
func (s *sim) EmitSpecEvent(e types.SpecEvent) {
	if e.SpecEventType == types.SpecEventSpecRepeat || e.SpecEventType == types.SpecEventSpecRetry {
		if l := len(s.events); l == 0 || s.events[l-1].what != "attempt" {
			s.events = append(s.events, simEvent{what: "attempt", attempt: e.Attempt})
		}
	}
}
func (s *sim) SuiteDidEnd(r types.Report) {
	s.events = append(s.events, simEvent{what: "end", suite: r})
}

func (s *sim) add(parent *simNode, kind types.NodeType) *simNode {
	n := &simNode{kind: kind, id: len(s.all) + 1, parent: parent, order: len(s.all)}
	if parent != nil {
		n.level = parent.level + 1
		parent.kids = append(parent.kids, n)
	}
	s.all = append(s.all, n)
	n.text = fmt.Sprintf("n%d", n.id)
	return n
}

func (s *sim) p(x float64) bool { return s.r.Float64() < x }

func (s *sim) gen(c *simNode, inOrdered bool, depth int) {
	setups := []types.NodeType{types.NodeTypeBeforeEach, types.NodeTypeJustBeforeEach, types.NodeTypeAfterEach, types.NodeTypeJustAfterEach}
	if inOrdered {
		setups = append(setups, types.NodeTypeBeforeAll, types.NodeTypeAfterAll, types.NodeTypeBeforeAll, types.NodeTypeAfterAll)
	}
	var kinds []types.NodeType
	for i := s.r.Intn(3) + s.r.Intn(2); i > 0; i-- {
		kinds = append(kinds, setups[s.r.Intn(len(setups))])
	}
	for i := 1 + s.r.Intn(3); i > 0; i-- {
		if depth > 0 && s.r.Intn(2) == 0 {
			kinds = append(kinds, types.NodeTypeContainer)
		} else {
			kinds = append(kinds, types.NodeTypeIt)
		}
	}
	s.r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	for _, k := range kinds {
		if k.Is(types.NodeTypesForContainerAndIt) && s.left <= 0 {
			continue
		}
		n := s.add(c, k)
		switch {
		case k == types.NodeTypeContainer || k == types.NodeTypeIt:
			n.pending, n.skip = s.p(s.o.pPending), s.p(s.o.pFilter)
			if s.o.flakes && s.p(0.3) {
				n.flake = 1 + s.r.Intn(4)
			} else if s.o.repeats && s.p(0.3) {
				n.repeat = 1 + s.r.Intn(4)
			}
			if n.skip {
				n.text += " filtered"
			}
			if k == types.NodeTypeIt {
				s.left--
			} else {
				n.ordered = !inOrdered && s.p(s.o.pOrdered)
				n.cont = n.ordered && s.p(s.o.pCont)
				s.gen(n, inOrdered || n.ordered, depth-1)
			}
		case k.Is(types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach | types.NodeTypeAfterEach | types.NodeTypeJustAfterEach):
			n.once = s.p(s.o.pOnce)
		}
	}
}

func (s *sim) choose(n *simNode) string {
	if s.hook != nil {
		if o := s.hook(n); o != "" {
			return o
		}
	}
	if n.runs <= len(n.outcomes) {
		return n.outcomes[n.runs-1]
	}
	x := s.r.Float64()
	for _, c := range []struct {
		p float64
		s string
	}{{s.o.pFail, "fail"}, {s.o.pSkip, "skip"}, {s.o.pPanic, "panic"}, {s.o.pAbort, "abort"}} {
		if x < c.p {
			return c.s
		}
		x -= c.p
	}
	return "pass"
}

func (s *sim) body(n *simNode) {
	n.runs++
	if n.kind.Is(types.NodeTypeBeforeEach|types.NodeTypeJustBeforeEach|types.NodeTypeIt|types.NodeTypeAfterEach|types.NodeTypeJustAfterEach|types.NodeTypeBeforeAll|types.NodeTypeAfterAll|types.NodeTypeBeforeSuite|types.NodeTypeAfterSuite) && n.from == nil {
		for s.p(s.o.pCleanup) {
			c := &simNode{kind: types.NodeTypeCleanupInvalid, id: 1000 + s.nReg, level: n.level, from: n, order: s.nReg, parent: n.parent}
			s.nReg++
			cn, errs := NewCleanupNode(types.NewDeprecationTracker(), func(m string, cl types.CodeLocation) {}, types.NewCustomCodeLocation("here"), func() { s.body(c) })
			if len(errs) > 0 {
				panic(fmt.Sprint("cleanup: ", errs))
			}
			if err := s.suite.PushNode(cn); err != nil {
				panic(fmt.Sprint("cleanup: ", err))
			}
			reg := simReg{node: c}
			for i := len(s.events) - 1; i >= 0; i-- {
				if s.events[i].what == "attempt" && reg.attempt == 0 {
					reg.attempt = s.events[i].attempt
				}
				if s.events[i].what == "willrun" {
					reg.spec = s.events[i].report.LeafNodeText
					break
				}
				if s.events[i].what == "didrun" {
					break
				}
			}
			s.regs = append(s.regs, reg)
		}
	}
	o := s.choose(n)
	s.events = append(s.events, simEvent{what: "node", node: n, outcome: o, run: n.runs})
	cl := types.NewCustomCodeLocation("here")
	switch o {
	case "fail":
		s.failer.Fail("failed in "+n.String(), cl)
		panic("stop")
	case "skip":
		s.failer.Skip("skipped in "+n.String(), cl)
		panic("stop")
	case "abort":
		s.failer.AbortSuite("aborted in "+n.String(), cl)
		panic("stop")
	case "panic":
		panic("panicked in " + n.String())
	}
}

func (s *sim) push(n *simNode) {
	var args []interface{}
	if n.ordered {
		args = append(args, Ordered)
	}
	if n.cont {
		args = append(args, ContinueOnFailure)
	}
	if n.pending {
		args = append(args, Pending)
	}
	if n.serial {
		args = append(args, Serial)
	}
	if n.once {
		args = append(args, OncePerOrdered)
	}
	if n.flake > 0 {
		args = append(args, FlakeAttempts(n.flake))
	}
	if n.repeat > 0 {
		args = append(args, MustPassRepeatedly(n.repeat))
	}
	args = append(args, types.CodeLocation{FileName: "suite.go", LineNumber: n.id})
	switch {
	case n.kind == types.NodeTypeContainer:
		args = append(args, func() {
			for _, k := range n.kids {
				s.push(k)
			}
		})
	case n.kind.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach):
		args = append(args, func(types.SpecReport) { s.body(n) })
	case n.kind.Is(types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite):
		args = append(args, func(r types.Report) { n.seen = r; s.body(n) })
	case n.kind == types.NodeTypeSynchronizedBeforeSuite:
		args = append(args, func() []byte { s.body(n); return nil }, func([]byte) { s.body(n) })
	case n.kind == types.NodeTypeSynchronizedAfterSuite:
		args = append(args, func() { s.body(n) }, func() { s.body(n) })
	default:
		args = append(args, func() { s.body(n) })
	}
	text := ""
	if n.kind.Is(types.NodeTypesForContainerAndIt | types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite) {
		text = n.text
		s.byText[text] = n
	}
	node, errs := NewNode(types.NewDeprecationTracker(), n.kind, text, args...)
	if len(errs) > 0 {
		panic(fmt.Sprint("building ", n, ": ", errs))
	}
	if err := s.suite.PushNode(node); err != nil {
		if s.pushErr == nil {
			s.pushErr = err
		}
	}
}

func newSim(r *rand.Rand, o simOpts) *sim {
	s := &sim{r: r, o: o, byText: map[string]*simNode{}, intr: &simInterrupt{st: interrupt_handler.InterruptStatus{Channel: make(chan interface{})}}}
	s.root = &simNode{level: -1, kind: types.NodeTypeInvalid}
	s.left = o.maxSpecs
	s.gen(s.root, false, o.maxDepth)
	if o.suiteNodes {
		for _, k := range []types.NodeType{types.NodeTypeBeforeSuite, types.NodeTypeAfterSuite, types.NodeTypeReportBeforeSuite, types.NodeTypeReportAfterSuite, types.NodeTypeReportAfterSuite} {
			if s.p(0.5) {
				if o.syncNodes && k == types.NodeTypeBeforeSuite && s.p(0.5) {
					k = types.NodeTypeSynchronizedBeforeSuite
				}
				if o.syncNodes && k == types.NodeTypeAfterSuite && s.p(0.5) {
					k = types.NodeTypeSynchronizedAfterSuite
				}
				s.add(s.root, k)
			}
		}
	}
	if o.reportNodes {
		for _, k := range []types.NodeType{types.NodeTypeReportBeforeEach, types.NodeTypeReportAfterEach} {
			if s.p(0.5) {
				s.add(s.root, k)
			}
		}
	}
	s.cfg = types.NewDefaultSuiteConfig()
	s.cfg.ParallelTotal, s.cfg.ParallelProcess = 1, 1
	s.cfg.RandomSeed = r.Int63()
	s.cfg.RandomizeAllSpecs = s.p(0.3)
	s.cfg.SkipStrings = []string{"filtered"}
	return s
}

// run declares, builds and runs the suite; false when the declarations were rejected
func (s *sim) run() bool {
	s.suite = NewSuite()
	s.failer = NewFailer()
	for _, k := range s.root.kids {
		s.push(k)
	}
	if err := s.suite.BuildTree(); err != nil || s.pushErr != nil {
		return false
	}
	w := NewWriter(nullWriter{})
	w.SetMode(WriterModeBufferOnly)
	s.success, _ = s.suite.Run("suite", Labels{}, "/suite", s.failer, s, w, NoopOutputInterceptor{}, s.intr, s.client, func(func()) context.CancelFunc { return func() {} }, s.cfg)
	return true
}

type nullWriter struct{}

func (nullWriter) Write(b []byte) (int, error) { return len(b), nil }

func (s *sim) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "config: FlakeAttempts %d MustPassRepeatedly %d FailFast %v DryRun %v FailOnPending %v FailOnEmpty %v\ndeclared:\n", s.cfg.FlakeAttempts, s.cfg.MustPassRepeatedly, s.cfg.FailFast, s.cfg.DryRun, s.cfg.FailOnPending, s.cfg.FailOnEmpty)
	var w func(n *simNode, ind string)
	w = func(n *simNode, ind string) {
		for _, k := range n.kids {
			fmt.Fprintf(&b, "%s%s\n", ind, k)
			w(k, ind+"  ")
		}
	}
	w(s.root, "  ")
	b.WriteString("happened:\n")
	for _, e := range s.events {
		fmt.Fprintf(&b, "  %s\n", e)
	}
	fmt.Fprintf(&b, "suite succeeded: %v\n", s.success)
	return b.String()
}

// one spec as it went: its report and the nodes of each attempt
type simSpec struct {
	it        *simNode
	will, did types.SpecReport
	before    []simEvent // ReportBeforeEach
	attempts  [][]simEvent
	after     []simEvent // ReportAfterEach
	reported  int
}

func (s *sim) specs() []*simSpec {
	var out []*simSpec
	var cur *simSpec
	for _, e := range s.events {
		switch e.what {
		case "willrun":
			cur = nil
			if e.report.LeafNodeType == types.NodeTypeIt {
				cur = &simSpec{it: e.node, will: e.report}
				out = append(out, cur)
			}
		case "didrun":
			if cur != nil {
				cur.did = e.report
				cur.reported++
			}
			cur = nil
		case "attempt":
			if cur != nil {
				for len(cur.attempts) < e.attempt {
					cur.attempts = append(cur.attempts, nil)
				}
				cur.attempts = append(cur.attempts, nil)
			}
		case "node":
			if cur == nil {
				continue
			}
			if e.node.kind == types.NodeTypeReportBeforeEach {
				cur.before = append(cur.before, e)
			} else if e.node.kind == types.NodeTypeReportAfterEach {
				cur.after = append(cur.after, e)
			} else {
				if len(cur.attempts) == 0 {
					cur.attempts = append(cur.attempts, nil)
				}
				cur.attempts[len(cur.attempts)-1] = append(cur.attempts[len(cur.attempts)-1], e)
			}
		}
	}
	return out
}

func (n *simNode) ancestors() []*simNode { // outermost first, without the root
	var out []*simNode
	for p := n.parent; p != nil && p.level >= 0; p = p.parent {
		out = append([]*simNode{p}, out...)
	}
	return out
}

// chain is the containers and the spec itself, outermost first
func (n *simNode) chain() []*simNode { return append(n.ancestors(), n) }

// around are the nodes of a kind that apply to a spec, outermost first and in declaration order
func (s *sim) around(it *simNode, kinds types.NodeType) []*simNode {
	var out []*simNode
	for _, c := range append([]*simNode{s.root}, it.ancestors()...) {
		for _, k := range c.kids {
			if k.kind.Is(kinds) {
				out = append(out, k)
			}
		}
	}
	return out
}

func (n *simNode) orderedContainer() *simNode {
	for _, c := range n.ancestors() {
		if c.ordered {
			return c
		}
	}
	return nil
}

// pair: the container within which a run-once node runs once for this spec; nil when it is not a run-once node
func (n *simNode) pair(it *simNode) *simNode {
	if n.kind.Is(types.NodeTypeBeforeAll | types.NodeTypeAfterAll) {
		return n.parent
	}
	if n.once {
		// the outermost container below or at the node that lies within an Ordered container
		in := false
		for _, c := range it.ancestors() {
			in = in || c.ordered
			if in && c.level >= n.level {
				return c
			}
		}
	}
	return nil
}

var simFailing = map[string]bool{"fail": true, "panic": true, "abort": true}

var simState = map[string]types.SpecState{"pass": types.SpecStatePassed, "fail": types.SpecStateFailed, "skip": types.SpecStateSkipped, "panic": types.SpecStatePanicked, "abort": types.SpecStateAborted}

// attemptState: the outcome of the first node that failed (skipping is not failing), unless something aborted
func attemptState(es []simEvent) string {
	st := "pass"
	for _, e := range es {
		if st == "pass" || e.outcome == "abort" || (st == "skip" && simFailing[e.outcome]) {
			if e.outcome != "pass" {
				st = e.outcome
			}
		}
	}
	return st
}

func (n *simNode) notRun() bool {
	for _, c := range n.chain() {
		if c.pending || c.skip {
			return true
		}
	}
	return false
}
func (n *simNode) isPending() bool {
	for _, c := range n.chain() {
		if c.pending {
			return true
		}
	}
	return false
}
