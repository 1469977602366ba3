// Package eng is the bounded exhaustive explorer: it enumerates choice trees and state graphs
// completely within their stated bounds, shards the executions over worker processes, and reports
// what was covered.
package eng

import (
	"fmt"
	"hash/fnv"
)

// Fail is a violation seen in one execution. Class is a short stable label used to group failures
// and to identify known findings; Msg is for people.
type Fail struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func Failf(class, f string, a ...interface{}) *Fail {
	return &Fail{class, fmt.Sprintf(f, a...)}
}

// Case is one execution to run against the implementation.
type Case struct {
	Title func() string
	Run   func(e *Env) *Fail
}

// Lazy is a case that is built only when it is run, for cases that are costly to build and that never
// turn out to be nil: every worker enumerates the whole space, but runs only its share.
func Lazy(build func() *Case) *Case {
	var c *Case
	get := func() *Case {
		if c == nil {
			c = build()
		}
		return c
	}
	return &Case{Title: func() string { return get().Title() }, Run: func(e *Env) *Fail { return get().Run(e) }}
}

// Chooser hands out the choices of one execution.
type Chooser struct {
	trail  []int
	sizes  []int
	isDev  []bool
	pos    int
	budget int
	used   int
	fixed  bool // replaying: every choice must be in the trail
}

// Pick enumerates 0..n-1 completely.
func (c *Chooser) Pick(n int) int { return c.choose(n, false) }

// Dev enumerates 0..n-1 where anything but 0 costs one deviation of the space's budget.
func (c *Chooser) Dev(n int) int { return c.choose(n, true) }

// Bool picks false, then true.
func (c *Chooser) Bool() bool { return c.Pick(2) == 1 }

func (c *Chooser) choose(n int, dev bool) int {
	if n < 1 {
		panic("eng: empty choice")
	}
	eff := n
	if dev && c.used >= c.budget {
		eff = 1
	}
	if c.pos == len(c.trail) {
		if c.fixed {
			panic("eng: replay diverged: more choices than recorded")
		}
		c.trail = append(c.trail, 0)
		c.sizes = append(c.sizes, eff)
		c.isDev = append(c.isDev, dev)
	} else if c.pos == len(c.sizes) {
		c.sizes = append(c.sizes, eff)
		c.isDev = append(c.isDev, dev)
	} else if c.sizes[c.pos] != eff || c.isDev[c.pos] != dev {
		panic(fmt.Sprintf("eng: replay diverged at choice %d: size %d, was %d", c.pos, eff, c.sizes[c.pos]))
	}
	v := c.trail[c.pos]
	if v >= eff {
		panic(fmt.Sprintf("eng: replay diverged at choice %d: %d of %d", c.pos, v, eff))
	}
	if dev && v != 0 {
		c.used++
	}
	c.pos++
	return v
}

func (c *Chooser) reset() { c.pos, c.used = 0, 0 }

// next moves to the following leaf; it returns the length of the prefix kept, or -1 at the end.
func (c *Chooser) next() int {
	for i := c.pos - 1; i >= 0; i-- {
		if c.trail[i]+1 < c.sizes[i] {
			c.trail = c.trail[:i+1]
			c.sizes = c.sizes[:i+1]
			c.isDev = c.isDev[:i+1]
			c.trail[i]++
			return i
		}
	}
	return -1
}

// Space is one bounded space of executions.
type Space struct {
	Name string
	Rule string // what is enumerated, for the evidence
	Devs int    // deviation budget for Dev choices
	// Body draws choices and returns the execution (nil: not a case, e.g. a symmetric duplicate).
	Body func(c *Chooser) *Case
	// Graph, if set, is used instead of Body.
	Graph *Graph
}

// Graph is an explicit state graph explored breadth first; every distinct state gives the cases of Check.
type Graph struct {
	Depth int
	Init  func() []interface{}
	Next  func(s interface{}) []interface{} // successors in a fixed order
	Key   func(s interface{}) string        // canonical form
	Check func(s interface{}) []*Case
	// MergeCheck, if set, gives cases for a transition that led to a state already seen
	// (the same state reached by another history).
	MergeCheck func(s interface{}) []*Case
}

// Stats of an enumeration.
type Stats struct {
	States, Transitions, Cases uint64
	MaxDepth                   int
}

// Enumerate calls yield for every case in a fixed order; yield returns false to stop.
func (s *Space) Enumerate(st *Stats, yield func(trail []int, c *Case) bool) bool {
	if s.Graph != nil {
		return s.enumGraph(st, yield)
	}
	c := &Chooser{budget: s.Devs}
	keep := 0
	for {
		c.reset()
		cs := s.Body(c)
		if c.pos != len(c.trail) {
			panic("eng: execution took fewer choices than its prefix: " + s.Name)
		}
		n := uint64(len(c.trail) - keep)
		st.States += n
		st.Transitions += n
		if len(c.trail) > st.MaxDepth {
			st.MaxDepth = len(c.trail)
		}
		if cs != nil {
			st.Cases++
			if !yield(c.trail, cs) {
				return false
			}
		}
		keep = c.next()
		if keep < 0 {
			st.States++ // root
			return true
		}
	}
}

type gnode struct {
	s     interface{}
	trail []int
}

func (s *Space) enumGraph(st *Stats, yield func([]int, *Case) bool) bool {
	g := s.Graph
	seen := map[string]bool{}
	var front []gnode
	emit := func(n gnode, cs []*Case, tag int) bool {
		for i, c := range cs {
			st.Cases++
			if !yield(append(append([]int{}, n.trail...), -1-tag, i), c) {
				return false
			}
		}
		return true
	}
	visit := func(n gnode) (bool, bool) {
		k := g.Key(n.s)
		h := fnv.New128a()
		h.Write([]byte(k))
		hk := string(h.Sum(nil))
		if seen[hk] {
			if g.MergeCheck != nil {
				return false, emit(n, g.MergeCheck(n.s), 1)
			}
			return false, true
		}
		seen[hk] = true
		st.States++
		if len(n.trail) > st.MaxDepth {
			st.MaxDepth = len(n.trail)
		}
		return true, emit(n, g.Check(n.s), 0)
	}
	for i, x := range g.Init() {
		n := gnode{x, []int{i}}
		fresh, ok := visit(n)
		if !ok {
			return false
		}
		if fresh {
			front = append(front, n)
		}
	}
	for d := 0; d < g.Depth; d++ {
		var nf []gnode
		for _, n := range front {
			for i, x := range g.Next(n.s) {
				st.Transitions++
				m := gnode{x, append(append([]int{}, n.trail...), i)}
				fresh, ok := visit(m)
				if !ok {
					return false
				}
				if fresh && d+1 < g.Depth {
					nf = append(nf, m)
				}
			}
		}
		front = nf
		if len(front) == 0 {
			break
		}
	}
	return true
}

// At rebuilds the case of a trail.
func (s *Space) At(trail []int) (cs *Case, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("replay: %v", r)
		}
	}()
	if s.Graph == nil {
		c := &Chooser{budget: s.Devs, trail: append([]int{}, trail...), fixed: true}
		cs = s.Body(c)
		if c.pos != len(trail) || cs == nil {
			return nil, fmt.Errorf("replay: the trail does not lead to a case")
		}
		return cs, nil
	}
	g := s.Graph
	x := g.Init()[trail[0]]
	for i := 1; ; i++ {
		if trail[i] < 0 {
			l := g.Check
			if trail[i] == -2 {
				l = g.MergeCheck
			}
			return l(x)[trail[i+1]], nil
		}
		x = g.Next(x)[trail[i]]
	}
}
