package checks

import "github.com/clipperhouse/uax29/v2/zverif/eng"

var props = map[string]*eng.Prop{}

func register(p *eng.Prop) { props[p.ID] = p }

// Find returns a property's check, or nil.
func Find(id string) *eng.Prop { return props[id] }
