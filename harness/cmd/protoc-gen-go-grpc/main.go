// Command protoc-gen-go-grpc generates the service code of a .proto file: unary methods only, which is all that the
// gRPC plugin declares. It stands in for the program of the same name, which is not installed here.
package main

import "google.golang.org/protobuf/compiler/protogen"

func main() {
	protogen.Options{}.Run(func(p *protogen.Plugin) error {
		p.SupportedFeatures = 1 // optional fields of proto3
		for _, f := range p.Files {
			if f.Generate && len(f.Services) > 0 {
				file(p, f)
			}
		}
		return nil
	})
}

var (
	ctx  = protogen.GoImportPath("context").Ident("Context")
	grpc = protogen.GoImportPath("google.golang.org/grpc")
	code = protogen.GoImportPath("google.golang.org/grpc/codes")
	stat = protogen.GoImportPath("google.golang.org/grpc/status")
)

func file(p *protogen.Plugin, f *protogen.File) {
	g := p.NewGeneratedFile(f.GeneratedFilenamePrefix+"_grpc.pb.go", f.GoImportPath)
	g.P("package ", f.GoPackageName)
	for _, s := range f.Services {
		n := s.GoName
		g.P("type ", n, "Client interface {")
		for _, m := range s.Methods {
			g.P(m.GoName, "(ctx ", ctx, ", in *", m.Input.GoIdent, ", opts ...", grpc.Ident("CallOption"), ") (*", m.Output.GoIdent, ", error)")
		}
		g.P("}")
		low := "impl" + n + "Client"
		g.P("type ", low, " struct { cc ", grpc.Ident("ClientConnInterface"), " }")
		g.P("func New", n, "Client(cc ", grpc.Ident("ClientConnInterface"), ") ", n, "Client { return &", low, "{cc} }")
		for _, m := range s.Methods {
			g.P("func (c *", low, ") ", m.GoName, "(ctx ", ctx, ", in *", m.Input.GoIdent, ", opts ...", grpc.Ident("CallOption"), ") (*", m.Output.GoIdent, ", error) {")
			g.P("out := new(", m.Output.GoIdent, ")")
			g.P("if err := c.cc.Invoke(ctx, \"/", s.Desc.FullName(), "/", m.Desc.Name(), "\", in, out, opts...); err != nil { return nil, err }")
			g.P("return out, nil")
			g.P("}")
		}
		g.P("type ", n, "Server interface {")
		for _, m := range s.Methods {
			g.P(m.GoName, "(", ctx, ", *", m.Input.GoIdent, ") (*", m.Output.GoIdent, ", error)")
		}
		g.P("mustEmbedUnimplemented", n, "Server()")
		g.P("}")
		g.P("type Unimplemented", n, "Server struct{}")
		g.P("func (Unimplemented", n, "Server) mustEmbedUnimplemented", n, "Server() {}")
		for _, m := range s.Methods {
			g.P("func (Unimplemented", n, "Server) ", m.GoName, "(", ctx, ", *", m.Input.GoIdent, ") (*", m.Output.GoIdent, ", error) {")
			g.P("return nil, ", stat.Ident("Errorf"), "(", code.Ident("Unimplemented"), ", \"method ", m.GoName, " not implemented\")")
			g.P("}")
		}
		g.P("func Register", n, "Server(s ", grpc.Ident("ServiceRegistrar"), ", srv ", n, "Server) { s.RegisterService(&", n, "_ServiceDesc, srv) }")
		for _, m := range s.Methods {
			g.P("func _", n, "_", m.GoName, "_Handler(srv interface{}, ctx ", ctx, ", dec func(interface{}) error, interceptor ", grpc.Ident("UnaryServerInterceptor"), ") (interface{}, error) {")
			g.P("in := new(", m.Input.GoIdent, ")")
			g.P("if err := dec(in); err != nil { return nil, err }")
			g.P("if interceptor == nil { return srv.(", n, "Server).", m.GoName, "(ctx, in) }")
			g.P("info := &", grpc.Ident("UnaryServerInfo"), "{Server: srv, FullMethod: \"/", s.Desc.FullName(), "/", m.Desc.Name(), "\"}")
			g.P("return interceptor(ctx, in, info, func(ctx ", ctx, ", req interface{}) (interface{}, error) {")
			g.P("return srv.(", n, "Server).", m.GoName, "(ctx, req.(*", m.Input.GoIdent, "))")
			g.P("})")
			g.P("}")
		}
		g.P("var ", n, "_ServiceDesc = ", grpc.Ident("ServiceDesc"), "{")
		g.P("ServiceName: \"", s.Desc.FullName(), "\", HandlerType: (*", n, "Server)(nil),")
		g.P("Methods: []", grpc.Ident("MethodDesc"), "{")
		for _, m := range s.Methods {
			g.P("{MethodName: \"", m.Desc.Name(), "\", Handler: _", n, "_", m.GoName, "_Handler},")
		}
		g.P("},")
		g.P("Streams: []", grpc.Ident("StreamDesc"), "{}, Metadata: \"", f.Desc.Path(), "\",")
		g.P("}")
	}
}
