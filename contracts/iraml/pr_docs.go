package raml

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// VcParsed...: the element after parsing the node into it (C10), as a function
// of the node.
func VcParsedAPISpec(t *APISpec, y *yaml.Node) error { return t.UnmarshalYAML(y) }
func VcParsedLibrary(t *Library, y *yaml.Node) error { return t.UnmarshalYAML(y) }

// VcState...: the readable properties.
func VcStateAPISpec(t raml.APISpec) interface{} { return vcReadAPISpec(t) }
func VcStateLibrary(t raml.Library) interface{} { return vcReadLibrary(t) }
