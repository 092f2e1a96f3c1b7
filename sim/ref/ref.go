//go:build go1.25

// Package ref computes reference results: a frozen, sequential, in-memory version of powkit's
// algorithms (the packages below it are copies of the base commit's pure functions, without its cache handling).
// Its tests are the published test vectors.
package ref

import (
	"bytes"
	"syscall"
	"unsafe"

	"powsim/ref/ethash"
	"powsim/ref/firopow"
	"powsim/ref/internal/crypto"
	"powsim/ref/internal/dag"
	"powsim/ref/kawpow"
	"powsim/ref/octopus"
)

// Params are the parameters of a DAG algorithm.
type Params struct {
	Kind                            string
	DatasetInit, DatasetGrowth, Mix uint64
	CacheInit, CacheGrowth          uint64
	Parents                         uint32
	EpochLength, SeedEpochLength    uint64
	Rounds                          int
	L1                              bool
}

func (p Params) config() dag.Config {
	return dag.Config{DatasetInitBytes: p.DatasetInit, DatasetGrowthBytes: p.DatasetGrowth, MixBytes: p.Mix, CacheInitBytes: p.CacheInit,
		CacheGrowthBytes: p.CacheGrowth, DatasetParents: p.Parents, EpochLength: p.EpochLength, SeedEpochLength: p.SeedEpochLength, CacheRounds: p.Rounds,
		L1Enabled: p.L1, L1CacheSize: 4096 * 4, L1CacheNumItems: 4096}
}

type client struct {
	data    *dag.DAG
	compute func(hash []byte, height, nonce uint64) ([]byte, []byte, error)
}

var clients = map[Params]*client{}

func get(p Params) *client {
	if c := clients[p]; c != nil {
		return c
	}
	if len(clients) > 200 {
		clients = map[Params]*client{}
	}
	c := &client{}
	switch p.Kind {
	case "ethash":
		x := ethash.New(p.config())
		c.data, c.compute = x.Data(), x.Compute
	case "kawpow":
		x := kawpow.New(p.config())
		c.data, c.compute = x.Data(), x.Compute
	case "firopow":
		x := firopow.New(p.config())
		c.data, c.compute = x.Data(), x.Compute
	case "octopus":
		x := octopus.New(p.config())
		c.data = x.Data()
		c.compute = func(hash []byte, height, nonce uint64) ([]byte, []byte, error) {
			d, err := x.Compute(hash, height, nonce)
			return nil, d, err
		}
	default:
		panic("ref: unknown algorithm " + p.Kind)
	}
	clients[p] = c
	return c
}

// Compute returns the mix (nil for Octopus) and the digest.
func Compute(p Params, hash []byte, height, nonce uint64) (mix, digest []byte) {
	m, d, err := get(p).compute(hash, height, nonce)
	if err != nil {
		panic("ref: " + err.Error())
	}
	return m, d
}

// Cache returns an epoch's cache and first-level cache.
func Cache(p Params, epoch uint64) (cache, l1 []uint32) {
	c := get(p).data.GetCache(epoch)
	return c.Cache(), c.L1()
}

// Seed returns the seed hash of an epoch.
func Seed(p Params, epoch uint64) []byte { return get(p).data.SeedHash(epoch*p.EpochLength + 1) }

// CacheSize and DatasetSize are the formulas, without tables.
func CacheSize(p Params, epoch uint64) uint64   { return get(p).data.CacheSize(epoch) }
func DatasetSize(p Params, epoch uint64) uint64 { return get(p).data.DatasetSize(epoch) }

// SipNode24 and SipBlock48 are the hashes of Cuckoo and Cuckaroo.
var (
	SipNode24  = crypto.SipNode24
	SipBlock48 = crypto.SipBlock48
)

// Keccak256 is for checksums over results.
func Keccak256(b ...[]byte) []byte { return crypto.Keccak256(bytes.Join(b, nil)) }

var zeroMem []uint32
var zeroL1 = map[Params]map[uint64][]uint32{}

// ComputeZero is Compute with a cache that holds only zeros, of the size the formula gives.
func ComputeZero(p Params, hash []byte, height, nonce uint64) (mix, digest []byte) {
	c := get(p)
	epoch := height / p.EpochLength
	words := c.data.CacheSize(epoch) / 4
	if uint64(len(zeroMem)) < words {
		if zeroMem != nil {
			panic("ref: cache too big")
		}
		b, err := syscall.Mmap(-1, 0, 1<<30, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			panic(err)
		}
		zeroMem = unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), len(b)/4)
	}
	var l1 []uint32
	if p.L1 {
		if zeroL1[p] == nil {
			zeroL1[p] = map[uint64][]uint32{}
		}
		if l1 = zeroL1[p][epoch]; l1 == nil {
			l1 = c.data.L1Of(zeroMem[:words])
			zeroL1[p][epoch] = l1
		}
	}
	c.data.Inject(epoch, zeroMem[:words], l1)
	m, d, err := c.compute(hash, height, nonce)
	c.data.Inject(epoch, nil, nil)
	if err != nil {
		panic("ref: " + err.Error())
	}
	return m, d
}
