package props

import (
	"reflect"

	"sigs.k8s.io/controller-tools/pkg/markers"

	"verif/pbt"
)

// parseProbe parses one fixed marker; want nil means it must be an error.
func parseProbe(key, text string, out, want any) Probe {
	return Probe{key, func() pbt.Outcome {
		reg := &markers.Registry{}
		if err := reg.Define("t", markers.DescribesType, out); err != nil {
			panic(pbt.HarnessPanic(err.Error()))
		}
		def := reg.Lookup(text, markers.DescribesType)
		if def == nil {
			return pbt.Failf("marker not found", "%q", text)
		}
		got, err := def.Parse(text)
		switch {
		case want == nil && err == nil:
			return pbt.Failf("bad marker accepted", "%q gave %#v", text, got)
		case want != nil && err != nil:
			return pbt.Failf("good marker rejected", "%q: %v", text, err)
		case want != nil && !reflect.DeepEqual(got, want):
			return pbt.Failf("wrong value", "%q: got %#v, want %#v", text, got, want)
		}
		return pbt.OK(true)
	}}
}

type probeNum struct {
	A int32
	B string `marker:",optional"`
}

var parseProbes = []Probe{
	parseProbe("negative-after-space", "+t:a=1,b= x", probeNum{}, probeNum{A: 1, B: "x"}),
	parseProbe("negative-list-after-space", "+t={1, -2}", []int(nil), []int{1, -2}),
	parseProbe("int32-overflow", "+t:a=4294967297", probeNum{}, nil),
	parseProbe("anonymous-int32-overflow", "+t=-2147483649", int32(0), nil),
	parseProbe("bare-string-trailing-space", "+t:b=foo ,a=3", probeNum{}, probeNum{A: 3, B: "foo"}),
}
