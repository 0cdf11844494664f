//go:build race

package main

// raceBuild is true under the race detector: observations that would order the goroutines observed are left out.
const raceBuild = true
