//go:build go1.25

package firopow

import (
	"fmt"
	"runtime"

	"powsim/ref/internal/dag"
)

type Client struct {
	data *dag.DAG
}

// Data gives the reference access to caches.
func (c *Client) Data() *dag.DAG { return c.data }

func New(cfg dag.Config) *Client {
	client := &Client{
		data: dag.New(cfg),
	}

	return client
}

func (c *Client) Compute(hash []byte, height, nonce uint64) ([]byte, []byte, error) {
	if len(hash) != 32 {
		return nil, nil, fmt.Errorf("hash must be 32 bytes")
	}

	epoch := c.data.CalcEpoch(height)
	size := c.data.DatasetSize(epoch)
	cache := c.data.GetCache(epoch)
	lookup := c.data.NewLookupFunc2048(cache, epoch)

	mix, digest := firopow(hash, height, nonce, size, lookup, cache.L1())
	runtime.KeepAlive(cache)

	return mix, digest, nil
}
