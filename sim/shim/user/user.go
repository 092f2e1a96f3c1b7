//go:build go1.25

// Package user is os/user in the simulated process.
package user

import (
	"errors"

	"powsim/rt"
)

func Current() (*User, error) {
	home, bad := "/home/miner", false
	if p := rt.CurProc(); p != nil {
		home, bad = p.Home, p.UserErr
	}
	rt.Point("user")
	if bad {
		return nil, errors.New("user: Current requires cgo or $USER, $HOME set in environment")
	}
	return &User{Uid: "1000", Gid: "1000", Username: "miner", Name: "miner", HomeDir: home}, nil
}

func Lookup(name string) (*User, error) {
	if name == "miner" {
		return Current()
	}
	return nil, UnknownUserError(name)
}

func LookupId(id string) (*User, error) {
	if id == "1000" {
		return Current()
	}
	return nil, errors.New("user: unknown userid " + id)
}

func LookupGroup(name string) (*Group, error) { return nil, UnknownGroupError(name) }
func LookupGroupId(id string) (*Group, error) { return nil, UnknownGroupIdError(id) }
