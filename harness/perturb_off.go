//go:build !verifperturb

package main

const perturbBuilt = false

func setPerturb(uint32, bool) {}
