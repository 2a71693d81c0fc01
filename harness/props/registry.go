// Package props holds the executable properties.
package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"

	"verif/pbt"
)

// Probe is one fixed input: a defect that was found here once, replayed on
// every run. Known findings are matched by Key.
type Probe struct {
	Key string
	Run func() pbt.Outcome
}

// Prop is one property with everything that decides it.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Families    []*pbt.Family
	Probes      []Probe
}

var (
	mu  sync.Mutex
	all = map[string]*Prop{}
)

func register(p *Prop) {
	mu.Lock()
	defer mu.Unlock()
	if all[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	all[p.ID] = p
}

// Get finds a property.
func Get(id string) *Prop { return all[id] }

// IDs lists the registered properties.
func IDs() []string {
	var out []string
	for id := range all {
		out = append(out, id)
	}
	return out
}

var scratchN atomic.Int64

// Scratch makes a fresh scratch directory below the run's scratch root.
func Scratch(prefix string) string {
	root := os.Getenv("VERIF_SCRATCH")
	if root == "" {
		panic(pbt.HarnessPanic("VERIF_SCRATCH is not set"))
	}
	d := filepath.Join(root, fmt.Sprintf("%s%d", prefix, scratchN.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(pbt.HarnessPanic(err.Error()))
	}
	return d
}

// Drop removes a scratch directory (only below the scratch root).
func Drop(d string) {
	root := os.Getenv("VERIF_SCRATCH")
	if rel, err := filepath.Rel(root, d); err != nil || rel == "." || rel == ".." || len(rel) > 2 && rel[:3] == "../" {
		return
	}
	if os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(d)
	}
}
