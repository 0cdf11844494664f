//go:build yield

package main

import "github.com/lxdlam/vertex/verifyield"

func addYield(m map[string]any) {
	total, sites, adjacent := verifyield.Stats()
	m["Stalls"] = verifyield.SetStall(0)
	m["Statements"], m["Sites"], m["Adjacent"] = total, sites, adjacent
}

func setLevel(v int) { verifyield.SetLevel(v) }

func setStall(n int64) { verifyield.SetStall(n) }
