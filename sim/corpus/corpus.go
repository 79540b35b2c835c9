// Package corpus holds the steps of the repository's own integration tests.
package corpus

import (
	"embed"
	"encoding/json"
	"strings"
	"sync"
)

//go:embed *.json
var files embed.FS

// Step is one step of a test.
type Step struct {
	Test, Kind      string
	Args            []string
	Schema, Expect  string
	HasExpect, Fail bool
}

// Test is one test's desired schemas, each once, in the order they occur.
type Test struct {
	Name    string
	Schemas []string
}

var (
	mu    sync.Mutex
	cache = map[string][]Test{}
)

// Tests gives the schemas that the tests of a command apply with success.
func Tests(tool string) []Test {
	mu.Lock()
	defer mu.Unlock()
	if t, ok := cache[tool]; ok {
		return t
	}
	b, err := files.ReadFile(tool + ".json")
	if err != nil {
		panic(err)
	}
	var st []Step
	if err := json.Unmarshal(b, &st); err != nil {
		panic(err)
	}
	var out []Test
	at := map[string]int{}
	for _, s := range st {
		if s.Kind != "apply" || s.Fail {
			continue
		}
		i, ok := at[s.Test]
		if !ok {
			i = len(out)
			at[s.Test] = i
			out = append(out, Test{Name: s.Test})
		}
		x := strings.ReplaceAll(s.Schema, tool+"_test", "app")
		have := false
		for _, y := range out[i].Schemas {
			have = have || x == y
		}
		if !have {
			out[i].Schemas = append(out[i].Schemas, x)
		}
	}
	cache[tool] = out
	return out
}
