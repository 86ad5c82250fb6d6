//go:build race

package run

const thisBuild = "race"
