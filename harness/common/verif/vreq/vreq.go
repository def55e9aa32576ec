//go:build go1.21

// Package vreq stands in for the HTTP client of the register manager under the
// controlled scheduler: a register whose content the harness changes.
package vreq

import (
	"errors"
	"strings"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	"github.com/ConsenSys/fc-retrieval/common/verif/vsched"
)

// Register is the register served; no maps, no growing slices.
type Register struct {
	Gateways  []byte
	Providers []byte
	Down      bool
	Pulls     int
	Deletes   int
	DeleteG   int
	DeleteP   int
}

// Srv is the register of this execution.
var Srv *Register

type comm struct{}

// NewHttpCommunicator replaces request.NewHttpCommunicator.
func NewHttpCommunicator() request.HttpCommunications { return comm{} }

//go:noinline
func (comm) GetJSON(url string) ([]byte, error) {
	vsched.Point("http get")
	s := Srv
	s.Pulls++
	var out []byte
	switch {
	case s.Down:
	case strings.Contains(url, "/registers/gateway"):
		out = s.Gateways
	case strings.Contains(url, "/registers/provider"):
		out = s.Providers
	}
	down := s.Down
	vsched.Point("http get answered")
	if down {
		return nil, errors.New("register down")
	}
	return append([]byte(nil), out...), nil
}

func (comm) SendJSON(url string, data interface{}) error { return nil }

func (comm) SendMessage(url string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error) {
	vsched.Point("http message")
	if Answer == nil {
		return nil, errors.New("unexpected")
	}
	r, err := Answer(url, m)
	vsched.Point("http message answered")
	return r, err
}

// Answer stands for everyone who is sent a message.
var Answer func(url string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, error)

//go:noinline
func (comm) Delete(url string) error {
	vsched.Point("http delete")
	if strings.Contains(url, "gateway") {
		Srv.DeleteG++
	} else {
		Srv.DeleteP++
	}
	Srv.Deletes++
	return nil
}
