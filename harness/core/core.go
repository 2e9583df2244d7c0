// Package core defines checks, cases and outcomes, and runs cases in child
// processes on behalf of the generator side.
package core

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"pgregory.net/rapid"
)

// Mode selects the build in which a check's cases are executed.
type Mode string

const (
	Fake Mode = "fake" // -tags faketime: virtual time
	Race Mode = "race" // -race: real time, race detector
	Real Mode = "real" // normal build: real time (whole-program checks)
)

// Outcome is what executing one case yields.
type Outcome struct {
	Violation    string   `json:"violation,omitempty"`
	Inconclusive string   `json:"inconclusive,omitempty"`
	NonTrivial   bool     `json:"nontrivial,omitempty"`
	Labels       []string `json:"labels,omitempty"`
	Evals        int      `json:"evals,omitempty"`    // elementary evaluations (default 1)
	Distinct     int      `json:"distinct,omitempty"` // distinct non-trivial inputs enumerated inside this one case
}

// Label adds a classification label.
func (o *Outcome) Label(l string) {
	for _, x := range o.Labels {
		if x == l {
			return
		}
	}
	o.Labels = append(o.Labels, l)
}

// Failf records the first violation.
func (o *Outcome) Failf(f string, a ...any) {
	if o.Violation == "" {
		o.Violation = fmt.Sprintf(f, a...)
	}
}

// Failf2 records a violation unless the text is empty.
func (o *Outcome) Failf2(s string) {
	if s != "" {
		o.Failf("%s", s)
	}
}

// Check is one generated-input check of a property.
type Check struct {
	Prop string
	Name string
	Mode Mode
	Rule string // how cases are made and what makes one non-trivial

	// Gen draws a case. Every random choice is rapid's.
	Gen func(t *rapid.T) any
	// Fixed cases run first: exhaustive enumerations and regressions.
	Fixed func(tier string) []any
	// Run executes and judges a case, in the child.
	Run func(raw json.RawMessage) Outcome

	Fresh    bool // a new child for every case
	Quick    int  // generated cases in the quick tier
	Thorough int
	Serial   bool // do not shard: the check needs the machine for itself

	// VirtualLimit is how long a case may last in the child's own time before
	// it counts as hung (virtual time in Fake mode).
	VirtualLimit time.Duration
}

// ID identifies the check.
func (c *Check) ID() string { return c.Prop + "/" + c.Name }

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) {
	if c.VirtualLimit == 0 {
		c.VirtualLimit = 10 * time.Minute
	}
	if registry[c.ID()] != nil {
		panic("duplicate check " + c.ID())
	}
	registry[c.ID()] = c
}

// Lookup finds a check by its ID.
func Lookup(id string) *Check { return registry[id] }

// ForProp lists the checks of a property in a stable order.
func ForProp(prop string) (out []*Check) {
	for _, c := range registry {
		if c.Prop == prop {
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return
}

// Props lists all properties that have checks.
func Props() (out []string) {
	seen := map[string]bool{}
	for _, c := range registry {
		if !seen[c.Prop] {
			seen[c.Prop] = true
			out = append(out, c.Prop)
		}
	}
	sort.Strings(out)
	return
}

// Decode unmarshals a case.
func Decode[C any](raw json.RawMessage) C {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(fmt.Sprintf("harness: bad case: %v", err))
	}
	return c
}
