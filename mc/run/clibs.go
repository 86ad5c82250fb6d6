//go:build clibs && !race

package run

const thisBuild = "clibs"
