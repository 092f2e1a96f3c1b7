//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package user

import zzreal "os/user"

type Group = zzreal.Group
type UnknownGroupError = zzreal.UnknownGroupError
type UnknownGroupIdError = zzreal.UnknownGroupIdError
type UnknownUserError = zzreal.UnknownUserError
type UnknownUserIdError = zzreal.UnknownUserIdError
type User = zzreal.User
