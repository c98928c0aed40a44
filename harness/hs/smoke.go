package hs

import (
	tw "github.com/textwire/textwire/v2"
	"vh/vrt"
)

func H_smoke() {
	s := vrt.Str(5, "")
	out, err := tw.EvaluateString(s, nil)
	if err != nil {
		vrt.Observe("err", err.Error())
		return
	}
	vrt.Observe("out", out)
}

func H_add() {
	a, b := vrt.Int64(), vrt.Int64()
	out, err := tw.EvaluateString("{{ a + b * 2 }}", map[string]any{"a": a, "b": b})
	if err != nil {
		vrt.Assert(false, "err")
		return
	}
	vrt.Observe("out", out)
}
