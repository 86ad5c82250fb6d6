package ref

import (
	"fmt"
	"strings"
)

// Path adds a step to where something is. Paths stay short: there are values
// that nest very deep.
func Path(path, step string) string {
	switch {
	case len(path) < 300:
		return path + step
	case strings.HasSuffix(path, "..."):
		return path
	}
	return path + "..."
}

// PathN adds an index or a key.
func PathN(path, format string, n interface{}) string {
	if len(path) >= 300 {
		return Path(path, "")
	}
	return path + fmt.Sprintf(format, n)
}

// PathTo is where a pointer leads.
func PathTo(path string) string {
	if len(path) >= 300 {
		return Path(path, "")
	}
	return "*" + path
}
