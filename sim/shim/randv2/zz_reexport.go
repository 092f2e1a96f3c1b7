//go:build go1.25

// Code generated by reexport; DO NOT EDIT.

package rand

import zzreal "math/rand/v2"

type ChaCha8 = zzreal.ChaCha8

var New = zzreal.New
var NewChaCha8 = zzreal.NewChaCha8
var NewPCG = zzreal.NewPCG
var NewZipf = zzreal.NewZipf

type PCG = zzreal.PCG
type Rand = zzreal.Rand
type Source = zzreal.Source

var Uint = zzreal.Uint

type Zipf = zzreal.Zipf
