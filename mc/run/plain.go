//go:build !race && !clibs

package run

const thisBuild = ""
