"""Turns the .proto files of the repository into headers for the gRPC stand-in (standin/grpc)."""
import os
import re

TYPES = {"uint32": "uint32_t", "fixed32": "uint32_t", "uint64": "uint64_t", "fixed64": "uint64_t", "int32": "int32_t",
         "sint32": "int32_t", "sfixed32": "int32_t", "int64": "int64_t", "sint64": "int64_t", "sfixed64": "int64_t",
         "bool": "bool", "double": "double", "float": "float", "bytes": "std::string", "string": "std::string"}


def generate(proto, out):
    with open(proto) as f:
        text = re.sub(r"//[^\n]*|/\*.*?\*/", "", f.read(), flags=re.S)
    pkg = re.search(r"package\s+([\w.]+)\s*;", text).group(1).split(".")
    o = ["#pragma once", "#include <google/protobuf/empty.pb.h>", "#include <grpcpp/grpcpp.h>"]
    o += ["namespace %s {" % p for p in pkg]
    for name, body in re.findall(r"message\s+(\w+)\s*\{(.*?)\}", text, re.S):
        o += ["class %s" % name, "{", "public:"]
        priv = []
        for ty, fld in re.findall(r"(\w+)\s+(\w+)\s*=\s*\d+", body):
            c = TYPES[ty]
            if c == "std::string":
                o += ["    const std::string& %s() const { return %s_; }" % (fld, fld),
                      "    void set_%s(const std::string& v) { %s_ = v; }" % (fld, fld),
                      "    void set_%s(const void* p, size_t n) { %s_.assign(static_cast<const char*>(p), n); }" % (fld, fld)]
                priv.append("    std::string %s_;" % fld)
            else:
                o += ["    %s %s() const { return %s_; }" % (c, fld, fld), "    void set_%s(%s v) { %s_ = v; }" % (fld, c, fld)]
                priv.append("    %s %s_ = 0;" % (c, fld))
        o += ["", "private:"] + priv + ["};"]
    ty = lambda t: "::" + t.replace(".", "::") if "." in t else t
    for svc, body in re.findall(r"service\s+(\w+)\s*\{(.*)\}\s*(?=message|$)", text, re.S):
        end, depth = 0, 1
        for end, ch in enumerate(body):
            depth += {"{": 1, "}": -1}.get(ch, 0)
            if depth == 0:
                break
        rpcs = re.findall(r"rpc\s+(\w+)\s*\(\s*(stream\s+)?([\w.]+)\s*\)\s*returns\s*\(\s*(stream\s+)?([\w.]+)\s*\)", body)
        full = ".".join(pkg + [svc])
        o += ["class %s final" % svc, "{", "public:", "    class Service : public ::grpc::Service", "    {", "    public:",
              "        const char* standin_name() const override { return \"%s\"; }" % full]
        for n, sq, q, sr, r in rpcs:
            q, r = ty(q), ty(r)
            a = ("::grpc::ServerReader<%s>*, %s*" % (q, r) if sq else "const %s*, ::grpc::ServerWriter<%s>*" % (q, r) if sr
                 else "const %s*, %s*" % (q, r))
            o += ["        virtual ::grpc::Status %s(::grpc::ServerContext*, %s)" % (n, a),
                  "        { return ::grpc::Status(::grpc::StatusCode::UNIMPLEMENTED, \"\"); }"]
        o += ["    };", "    class Stub", "    {", "    public:",
              "        explicit Stub(std::shared_ptr<::grpc::Channel> c) : channel_(std::move(c)) {}"]
        for n, sq, q, sr, r in rpcs:
            q, r = ty(q), ty(r)
            if sq:
                o += ["        std::unique_ptr<::grpc::ClientWriter<%s>> %s(::grpc::ClientContext* c, %s* r)" % (q, n, r),
                      "        { return ::grpc::standin_up<Service, %s, %s>(*channel_, \"%s\", c, &Service::%s, r); }" % (q, r, full, n)]
            elif sr:
                o += ["        std::unique_ptr<::grpc::ClientReader<%s>> %s(::grpc::ClientContext* c, const %s& q)" % (r, n, q),
                      "        { return ::grpc::standin_down<Service, %s, %s>(*channel_, \"%s\", c, &Service::%s, q); }" % (q, r, full, n)]
            else:
                o += ["        ::grpc::Status %s(::grpc::ClientContext*, const %s& q, %s* r)" % (n, q, r),
                      "        { return ::grpc::standin_unary<Service, %s, %s>(*channel_, \"%s\", &Service::%s, q, r); }" % (q, r, full, n)]
        o += ["", "    private:", "        std::shared_ptr<::grpc::Channel> channel_;", "    };",
              "    static std::unique_ptr<Stub> NewStub(const std::shared_ptr<::grpc::Channel>& c)",
              "    { return std::unique_ptr<Stub>(new Stub(c)); }", "};"]
    o += ["} // namespace" for _ in pkg]
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(out, "w") as f:
        f.write("\n".join(o) + "\n")
