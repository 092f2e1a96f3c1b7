//go:build go1.25

// Copyright 2017 The go-ethereum Authors
// This file is part of the go-ethereum library.
//
// The go-ethereum library is free software: you can redistribute it and/or modify
// it under the terms of the GNU Lesser General Public License as published by
// the Free Software Foundation, either version 3 of the License, or
// (at your option) any later version.
//
// The go-ethereum library is distributed in the hope that it will be useful,
// but WITHOUT ANY WARRANTY; without even the implied warranty of
// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the
// GNU Lesser General Public License for more details.
//
// You should have received a copy of the GNU Lesser General Public License
// along with the go-ethereum library. If not, see <http://www.gnu.org/licenses/>.

package dag

import (
	"math/big"

	"powsim/ref/internal/crypto"
)

type DAG struct {
	Config
	caches map[uint64]*cache
}

func New(cfg Config) *DAG {
	dag := &DAG{
		Config: cfg,
		caches: make(map[uint64]*cache),
	}

	return dag
}

/* calculations */

func (d *DAG) CalcEpoch(height uint64) uint64 {
	epoch := height / d.EpochLength

	return epoch
}

func (d *DAG) SeedHash(height uint64) []byte {
	seed := make([]byte, 32)
	if height < d.SeedEpochLength {
		return seed
	}

	keccak256Hasher := crypto.NewKeccak256Hasher()
	for i := 0; i < int(height/d.SeedEpochLength); i++ {
		keccak256Hasher(seed, seed)
	}

	return seed
}

func (d *DAG) CacheSize(epoch uint64) uint64 {
	if d.CacheSizes != nil && epoch < d.CacheSizes.maxEpoch {
		return d.CacheSizes.table[epoch]
	}

	return d.calcCacheSize(epoch)
}

func (d *DAG) DatasetSize(epoch uint64) uint64 {
	if d.DatasetSizes != nil && epoch < d.DatasetSizes.maxEpoch {
		return d.DatasetSizes.table[epoch]
	}

	return d.calcDatasetSize(epoch)
}

func (d *DAG) calcCacheSize(epoch uint64) uint64 {
	size := d.CacheInitBytes + d.CacheGrowthBytes*epoch - hashBytes

	// Always accurate for n < 2^64
	for !new(big.Int).SetUint64(size / hashBytes).ProbablyPrime(1) {
		size -= 2 * hashBytes
	}

	return size
}

func (d *DAG) calcDatasetSize(epoch uint64) uint64 {
	size := d.DatasetInitBytes + d.DatasetGrowthBytes*epoch - d.MixBytes

	// Always accurate for n < 2^64
	for !new(big.Int).SetUint64(size / d.MixBytes).ProbablyPrime(1) {
		size -= 2 * d.MixBytes
	}

	return size
}

type cache struct{ c, l1 []uint32 }

func (c *cache) Cache() []uint32 { return c.c }
func (c *cache) L1() []uint32    { return c.l1 }

// GetCache generates the epoch's cache in memory, or returns it if it has been generated before.
func (d *DAG) GetCache(epoch uint64) *cache {
	if c := d.caches[epoch]; c != nil {
		return c
	}
	if len(d.caches) > 64 {
		d.caches = map[uint64]*cache{}
	}
	c := &cache{c: make([]uint32, d.CacheSize(epoch)/4)}
	d.generateCache(c.c, epoch, d.SeedHash(epoch*d.EpochLength+1))
	if d.L1Enabled {
		c.l1 = make([]uint32, d.L1CacheNumItems)
		d.generateL1Cache(c.l1, c.c)
	}
	d.caches[epoch] = c
	return c
}

// Inject puts a cache in place of an epoch's own; nil takes it away.
func (d *DAG) Inject(epoch uint64, c, l1 []uint32) {
	if c == nil {
		delete(d.caches, epoch)
		return
	}
	d.caches[epoch] = &cache{c, l1}
}

// L1Of computes the first-level cache of a cache.
func (d *DAG) L1Of(c []uint32) []uint32 {
	l1 := make([]uint32, d.L1CacheNumItems)
	d.generateL1Cache(l1, c)
	return l1
}

/* lookups */

type LookupFunc func(index uint32) []uint32

func (dag *DAG) NewLookupFunc512(c *cache, epoch uint64) LookupFunc {
	keccak512Hasher := crypto.NewKeccak512Hasher()
	lookup := func(index uint32) []uint32 {
		return dag.generateDatasetItemUint(c.Cache(), index, 1, keccak512Hasher)
	}

	return lookup
}

func (dag *DAG) NewLookupFunc1024(c *cache, epoch uint64) LookupFunc {
	keccak512Hasher := crypto.NewKeccak512Hasher()
	lookup := func(index uint32) []uint32 {
		return dag.generateDatasetItemUint(c.Cache(), index, 2, keccak512Hasher)
	}

	return lookup
}

func (dag *DAG) NewLookupFunc2048(c *cache, epoch uint64) LookupFunc {
	keccak512Hasher := crypto.NewKeccak512Hasher()
	lookup := func(index uint32) []uint32 {
		return dag.generateDatasetItemUint(c.Cache(), index, 4, keccak512Hasher)
	}

	return lookup
}
