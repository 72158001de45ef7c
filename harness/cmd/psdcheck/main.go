// psdcheck decides the properties of the decoder and of the colour models.
package main

import (
	"verif.local/harness/mc"
)

var props = map[string]*mc.Property{}

func reg(id string, scs ...mc.Scenario) *mc.Property {
	p := props[id]
	if p == nil {
		p = &mc.Property{ID: id, Level: "model_checking"}
		props[id] = p
	}
	p.Scenarios = append(p.Scenarios, scs...)
	return p
}

func main() { mc.Main(props) }
