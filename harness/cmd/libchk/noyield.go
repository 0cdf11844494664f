//go:build !yield

package main

import (
	"math/rand"

	"verif/vk"
)

func perturb(rng *rand.Rand) int { return 0 }

func observe(r *vk.Run) {}
