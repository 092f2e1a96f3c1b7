//go:build go1.25

package octopus

import (
	"fmt"
	"runtime"

	"powsim/ref/internal/dag"
)

type Client struct {
	data *dag.DAG
}

// Data gives the reference access to caches.
func (c *Client) Data() *dag.DAG { return c.data }

func New(cfg dag.Config) *Client {
	client := &Client{
		data: dag.New(cfg),
	}

	return client
}

func (c *Client) Compute(hash []byte, height, nonce uint64) ([]byte, error) {
	if len(hash) != 32 {
		return nil, fmt.Errorf("hash must be 32 bytes")
	}

	epoch := c.data.CalcEpoch(height)
	size := c.data.DatasetSize(epoch)
	cache := c.data.GetCache(epoch)
	lookup := c.data.NewLookupFunc512(cache, epoch)

	digest := octopus(hash, nonce, size, lookup)
	runtime.KeepAlive(cache)

	return digest, nil
}
