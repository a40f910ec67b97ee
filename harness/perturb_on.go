//go:build verifperturb

package main

import (
	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
)

const perturbBuilt = true

func setPerturb(rate uint32, poison bool) {
	memcache.VerifSetPerturb(rate)
	netconn.VerifSetPerturb(rate)
	memcache.VerifSetPoison(poison)
}
