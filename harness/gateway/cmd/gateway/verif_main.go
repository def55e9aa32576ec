//go:build go1.21

package main

import (
	"os"

	"github.com/ConsenSys/fc-retrieval/gateway/verif/nodechecks"
)

// With VERIF_NODE set, the gateway runs inside a check, which ends the process.
func init() {
	if id := os.Getenv("VERIF_NODE"); id != "" {
		nodechecks.Run(id, main)
	}
}
