package props

import (
	"os"
	"path/filepath"
	"sort"

	"sigs.k8s.io/controller-tools/pkg/loader"

	"verif/pbt"
)

type pkgT = loader.Package

// someOf is one to max of the given values, in their order.
func someOf[T any](s *pbt.Src, xs []T, max int) []T {
	n := 1 + s.Small(max-1)
	p := s.Perm(len(xs))[:n]
	sort.Ints(p)
	var out []T
	for _, i := range p {
		out = append(out, xs[i])
	}
	return out
}

// removeIn removes a file below a scratch directory.
func removeIn(dir, f string) {
	if err := os.Remove(filepath.Join(dir, f)); err != nil && !os.IsNotExist(err) {
		panic(pbt.HarnessPanic(err.Error()))
	}
}
