//go:build !amd64

package vrt

func goid() int64 { return slowGoid() }
