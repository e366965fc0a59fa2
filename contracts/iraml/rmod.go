package raml

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmod"
)

// The header line names the kind of the document, but for the root document.
func VcC14_ModuleType_ToHeader(m rmod.ModuleType) {
	h := m.ToHeader()
	if m == "root" {
		vc.Assert(h == "#%RAML 1.0", "the root document has the bare header")
		return
	}
	vc.Assert(h == "#%RAML 1.0 "+string(m), "the header names the kind")
}

// The published kinds and header texts are those of RAML 1.0.
func VcC14_headers() {
	vc.Assert(rmod.TypeRoot.ToHeader() == "#%RAML 1.0", "root document")
	vc.Assert(rmod.TypeDataType.ToHeader() == "#%RAML 1.0 DataType", "DataType")
	vc.Assert(rmod.TypeExtension.ToHeader() == "#%RAML 1.0 Extension", "Extension")
	vc.Assert(rmod.TypeLibrary.ToHeader() == "#%RAML 1.0 Library", "Library")
	vc.Assert(rmod.TypeResourceType.ToHeader() == "#%RAML 1.0 ResourceType", "ResourceType")
	vc.Assert(rmod.TypeTrait.ToHeader() == "#%RAML 1.0 Trait", "Trait")
	vc.Assert(rmeta.HeaderRoot == "#%RAML 1.0\n---\n", "header text of a root document")
	vc.Assert(rmeta.HeaderDataType == "#%RAML 1.0 DataType\n---\n", "header text of DataType")
	vc.Assert(rmeta.HeaderExtension == "#%RAML 1.0 Extension\n---\n", "header text of Extension")
	vc.Assert(rmeta.HeaderLibrary == "#%RAML 1.0 Library\n---\n", "header text of Library")
	vc.Assert(rmeta.HeaderOverlay == "#%RAML 1.0 Overlay\n---\n", "header text of Overlay")
	vc.Assert(rmeta.HeaderTrait == "#%RAML 1.0 Trait\n---\n", "header text of Trait")
}
