package main

import (
	"unsafe"

	_ "go.mongodb.org/mongo-driver/x/mongo/driver/topology"
)

// The driver picks one of several suitable servers with a random source of its
// own, seeded when the process starts. Every run gives it a source derived from
// the run's seed.

//go:linkname driverRandom go.mongodb.org/mongo-driver/x/mongo/driver/topology.random
var driverRandom *struct{ src randSource }

type randSource interface {
	Seed(seed uint64)
	Uint64() uint64
}

type drvSource struct{ r *rng }

func (d *drvSource) Seed(uint64)    {}
func (d *drvSource) Uint64() uint64 { return d.r.u64() }

func seedDriver(seed uint64) { driverRandom.src = &drvSource{newRng(seed ^ 0xd17e)} }

var _ unsafe.Pointer
