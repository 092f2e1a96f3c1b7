//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package rand

import zzreal "math/rand"

var New = zzreal.New
var NewSource = zzreal.NewSource
var NewZipf = zzreal.NewZipf

type Rand = zzreal.Rand
type Source = zzreal.Source
type Source64 = zzreal.Source64
type Zipf = zzreal.Zipf
