//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package rand

import zzreal "crypto/rand"

var Prime = zzreal.Prime
