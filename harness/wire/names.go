package wire

import (
	"github.com/teamlint/baron/zzverif/pspec"
)

// names are the Go names protoc's plugins give the definition.
type names struct {
	Package string // Go package name
	Service string
	Full    string // proto name of the service
	Methods map[string]method
}

type method struct{ Go, In, Out string }

func namesOf(c *pspec.Compiled) *names {
	n := &names{Methods: map[string]method{}}
	for _, f := range c.Gen.Files {
		if !f.Generate {
			continue
		}
		n.Package = string(f.GoPackageName)
		for _, s := range f.Services {
			n.Service = s.GoName
			n.Full = string(s.Desc.FullName())
			for _, m := range s.Methods {
				if m.Desc.IsStreamingClient() || m.Desc.IsStreamingServer() {
					continue
				}
				n.Methods[string(m.Desc.Name())] = method{m.GoName, m.Input.GoIdent.GoName, m.Output.GoIdent.GoName}
			}
		}
	}
	return n
}
