//go:build !race

package vrt

func raceCheck() {}
