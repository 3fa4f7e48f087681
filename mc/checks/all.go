package checks

import "verif/mc/engine"

var all = map[string]*engine.Check{}

func register(c *engine.Check) { all[c.ID] = c }

// Find returns the check of a property.
func Find(id string) *engine.Check { return all[id] }
