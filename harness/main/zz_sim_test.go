//go:build go1.22

package main

import (
	"testing"

	"github.com/lyraproj/hiera/zzsim"
)

func TestSim(t *testing.T) { zzsim.Main(t, main) }
