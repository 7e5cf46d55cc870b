package checks

import "sort"

// Check decides one property.
type Check struct {
	ID        string
	Technique string
	Run       func(c *Ctx) *Result
}

var registry = map[string]Check{}

func register(id, technique string, run func(c *Ctx) *Result) {
	registry[id] = Check{ID: id, Technique: technique, Run: run}
}

// Get returns a check.
func Get(id string) (Check, bool) { c, ok := registry[id]; return c, ok }

// IDs of all checks.
func IDs() []string {
	var l []string
	for k := range registry {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
