//go:build link

package main

import (
	_ "unsafe"

	"github.com/iomz/gosstrak/filtering"
)

//go:linkname linkSubset github.com/iomz/gosstrak/filtering.ByteSubscriptions.linkSubset
func linkSubset(bsub filtering.ByteSubscriptions)

const canLink = true
