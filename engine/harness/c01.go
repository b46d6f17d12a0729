package main

import "vs"

func init() {
	props["C01"] = func(thorough bool) (ts []Task) {
		d := 6
		wd := 3
		sizes, pre := []int{124, 125, 126, 253, 254}, []int{0, 1, 9}
		if thorough {
			d, wd = 7, 4
			sizes, pre = []int{123, 124, 125, 126, 127, 252, 253, 254}, []int{0, 1, 7, 8, 9, 16, 255, 300}
		}
		obs := func(e *env) { checkContents(e.x, e.cl, e.u, e.m) }
		for _, sp := range narrowSpaces(d) {
			cls := []string{"tree", "alloc"}
			if sp.depth >= 6 {
				cls = cls[:1]
			}
			ts = append(ts, sp.tasks("hist", cls, 2, vs.Config{}, obs)...)
		}
		for _, sp := range wideSpaces(wd, sizes, pre) {
			ts = append(ts, sp.tasks("hist", []string{"tree"}, 1, vs.Config{}, obs)...)
		}
		contents := func(e *env, ps []string) { checkContents(e.x, e.cl, e.u, e.m) }
		ts = append(ts, branchTasks("branches", "w4", branchPrefixes(thorough), contents)...)
		ts = append(ts, recycled(thorough, contents)...)
		ts = append(ts, ladderTasks("ladder", []string{"s10", "w4"}, thorough, contents)...)
		return
	}
}
