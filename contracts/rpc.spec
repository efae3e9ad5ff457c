# The generated RPC server (C26). Written by tools/gen_rpc_spec.py: the same contracts for each method.
# NewRouter (main.spec) shows that the served handler has what is required here: the service, no hooks, no interceptor.

def SERVICE(s) = s.Comfo != nil && s.hooks == nil && s.interceptor == nil && s.pathPrefix == "/twirp"

def ALLCALLS = n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") + n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") + n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") + n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") + n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") + n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") + n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") + n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") + n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") + n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache")

def ALLSERVES = n("rpc/comfo.(*comfoServer).serveGetBootInfo") + n("rpc/comfo.(*comfoServer).serveGetTemps") + n("rpc/comfo.(*comfoServer).serveGetBypass") + n("rpc/comfo.(*comfoServer).serveGetFans") + n("rpc/comfo.(*comfoServer).serveGetFanProfiles") + n("rpc/comfo.(*comfoServer).serveGetErrors") + n("rpc/comfo.(*comfoServer).serveSetFanSpeed") + n("rpc/comfo.(*comfoServer).serveSetComfortTemp") + n("rpc/comfo.(*comfoServer).serveSetFanProfile") + n("rpc/comfo.(*comfoServer).serveFlushCache")

def WRITE = "net/http.ResponseWriter.Write"

def STATUS = "net/http.ResponseWriter.WriteHeader"

func rpc/comfo.(*comfoServer).writeError(s, ctx, resp, err)
  requires SERVICE(s) && resp != nil && err != nil
  ensures [C26] "one answer, which is an error": n(WRITE) == 1 && arg(WRITE, 1, 0) == resp && n(STATUS) == 1 && arg(STATUS, 1, 0) == resp && arg(STATUS, 1, 1) != 200 && order(STATUS, 1) < order(WRITE, 1)

func rpc/comfo.(*comfoServer).handleRequestBodyError(s, ctx, resp, msg, err)
  requires SERVICE(s) && resp != nil && err != nil
  events rpc/comfo.(*comfoServer).writeError
  ensures [C26] "one answer, which is an error": n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) != nil

func rpc/comfo.(*comfoServer).PathPrefix(s) (p)
  requires SERVICE(s)
  ensures [C26] "the prefix requests are routed by": p == "/twirp/comfo.api.Comfo/"

func rpc/comfo.(*comfoServer).ServeHTTP(s, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveGetBootInfo, rpc/comfo.(*comfoServer).serveGetTemps, rpc/comfo.(*comfoServer).serveGetBypass, rpc/comfo.(*comfoServer).serveGetFans, rpc/comfo.(*comfoServer).serveGetFanProfiles, rpc/comfo.(*comfoServer).serveGetErrors, rpc/comfo.(*comfoServer).serveSetFanSpeed, rpc/comfo.(*comfoServer).serveSetComfortTemp, rpc/comfo.(*comfoServer).serveSetFanProfile, rpc/comfo.(*comfoServer).serveFlushCache
  ensures [C26] "one method or an error": ALLSERVES + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "GetBootInfo is reached by its path only": n("rpc/comfo.(*comfoServer).serveGetBootInfo") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/GetBootInfo" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveGetBootInfo", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetBootInfo", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetBootInfo", 1, 3) == req && unchanged(deref(req))
  ensures [C26] "GetTemps is reached by its path only": n("rpc/comfo.(*comfoServer).serveGetTemps") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/GetTemps" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveGetTemps", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetTemps", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetTemps", 1, 3) == req && unchanged(deref(req))
  ensures [C26] "GetBypass is reached by its path only": n("rpc/comfo.(*comfoServer).serveGetBypass") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/GetBypass" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveGetBypass", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetBypass", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetBypass", 1, 3) == req && unchanged(deref(req))
  ensures [C26] "GetFans is reached by its path only": n("rpc/comfo.(*comfoServer).serveGetFans") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/GetFans" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveGetFans", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetFans", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetFans", 1, 3) == req && unchanged(deref(req))
  ensures [C26] "GetFanProfiles is reached by its path only": n("rpc/comfo.(*comfoServer).serveGetFanProfiles") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/GetFanProfiles" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveGetFanProfiles", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetFanProfiles", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetFanProfiles", 1, 3) == req && unchanged(deref(req))
  ensures [C26] "GetErrors is reached by its path only": n("rpc/comfo.(*comfoServer).serveGetErrors") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/GetErrors" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveGetErrors", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetErrors", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetErrors", 1, 3) == req && unchanged(deref(req))
  ensures [C26] "SetFanSpeed is reached by its path only": n("rpc/comfo.(*comfoServer).serveSetFanSpeed") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/SetFanSpeed" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveSetFanSpeed", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveSetFanSpeed", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveSetFanSpeed", 1, 3) == req && unchanged(deref(req))
  ensures [C26] "SetComfortTemp is reached by its path only": n("rpc/comfo.(*comfoServer).serveSetComfortTemp") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/SetComfortTemp" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveSetComfortTemp", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveSetComfortTemp", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveSetComfortTemp", 1, 3) == req && unchanged(deref(req))
  ensures [C26] "SetFanProfile is reached by its path only": n("rpc/comfo.(*comfoServer).serveSetFanProfile") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/SetFanProfile" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveSetFanProfile", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveSetFanProfile", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveSetFanProfile", 1, 3) == req && unchanged(deref(req))
  ensures [C26] "FlushCache is reached by its path only": n("rpc/comfo.(*comfoServer).serveFlushCache") >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/FlushCache" && old(req.Method) == "POST" && arg("rpc/comfo.(*comfoServer).serveFlushCache", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveFlushCache", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveFlushCache", 1, 3) == req && unchanged(deref(req))
  behaviour GetBootInfo()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/GetBootInfo"
    ensures [C26] "GetBootInfo is reached by its path": n("rpc/comfo.(*comfoServer).serveGetBootInfo") == 1
  behaviour GetTemps()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/GetTemps"
    ensures [C26] "GetTemps is reached by its path": n("rpc/comfo.(*comfoServer).serveGetTemps") == 1
  behaviour GetBypass()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/GetBypass"
    ensures [C26] "GetBypass is reached by its path": n("rpc/comfo.(*comfoServer).serveGetBypass") == 1
  behaviour GetFans()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/GetFans"
    ensures [C26] "GetFans is reached by its path": n("rpc/comfo.(*comfoServer).serveGetFans") == 1
  behaviour GetFanProfiles()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/GetFanProfiles"
    ensures [C26] "GetFanProfiles is reached by its path": n("rpc/comfo.(*comfoServer).serveGetFanProfiles") == 1
  behaviour GetErrors()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/GetErrors"
    ensures [C26] "GetErrors is reached by its path": n("rpc/comfo.(*comfoServer).serveGetErrors") == 1
  behaviour SetFanSpeed()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/SetFanSpeed"
    ensures [C26] "SetFanSpeed is reached by its path": n("rpc/comfo.(*comfoServer).serveSetFanSpeed") == 1
  behaviour SetComfortTemp()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/SetComfortTemp"
    ensures [C26] "SetComfortTemp is reached by its path": n("rpc/comfo.(*comfoServer).serveSetComfortTemp") == 1
  behaviour SetFanProfile()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/SetFanProfile"
    ensures [C26] "SetFanProfile is reached by its path": n("rpc/comfo.(*comfoServer).serveSetFanProfile") == 1
  behaviour FlushCache()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/FlushCache"
    ensures [C26] "FlushCache is reached by its path": n("rpc/comfo.(*comfoServer).serveFlushCache") == 1

func rpc/comfo.(*comfoServer).serveGetBootInfo(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveGetBootInfoJSON, rpc/comfo.(*comfoServer).serveGetBootInfoProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveGetBootInfoJSON") + n("rpc/comfo.(*comfoServer).serveGetBootInfoProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveGetBootInfoJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetBootInfoJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetBootInfoJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetBootInfoJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveGetBootInfoProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetBootInfoProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetBootInfoProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetBootInfoProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetBootInfoJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetBootInfoProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveGetBootInfoJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetBootInfoProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBootInfo", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetTemps(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveGetTempsJSON, rpc/comfo.(*comfoServer).serveGetTempsProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveGetTempsJSON") + n("rpc/comfo.(*comfoServer).serveGetTempsProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveGetTempsJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetTempsJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetTempsJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetTempsJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveGetTempsProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetTempsProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetTempsProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetTempsProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetTempsJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetTempsProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveGetTempsJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetTempsProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetTemps", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetBypass(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveGetBypassJSON, rpc/comfo.(*comfoServer).serveGetBypassProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveGetBypassJSON") + n("rpc/comfo.(*comfoServer).serveGetBypassProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveGetBypassJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetBypassJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetBypassJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetBypassJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveGetBypassProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetBypassProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetBypassProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetBypassProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetBypassJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetBypassProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveGetBypassJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetBypassProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetBypass", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetFans(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveGetFansJSON, rpc/comfo.(*comfoServer).serveGetFansProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveGetFansJSON") + n("rpc/comfo.(*comfoServer).serveGetFansProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveGetFansJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetFansJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetFansJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetFansJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveGetFansProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetFansProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetFansProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetFansProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetFansJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetFansProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveGetFansJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetFansProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFans", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetFanProfiles(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveGetFanProfilesJSON, rpc/comfo.(*comfoServer).serveGetFanProfilesProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveGetFanProfilesJSON") + n("rpc/comfo.(*comfoServer).serveGetFanProfilesProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveGetFanProfilesJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetFanProfilesJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetFanProfilesJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetFanProfilesJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveGetFanProfilesProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetFanProfilesProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetFanProfilesProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetFanProfilesProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetFanProfilesJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetFanProfilesProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveGetFanProfilesJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetFanProfilesProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetFanProfiles", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetErrors(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveGetErrorsJSON, rpc/comfo.(*comfoServer).serveGetErrorsProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveGetErrorsJSON") + n("rpc/comfo.(*comfoServer).serveGetErrorsProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveGetErrorsJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetErrorsJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetErrorsJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetErrorsJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveGetErrorsProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveGetErrorsProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveGetErrorsProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveGetErrorsProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetErrorsJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveGetErrorsProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveGetErrorsJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveGetErrorsProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.GetErrors", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveSetFanSpeed(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveSetFanSpeedJSON, rpc/comfo.(*comfoServer).serveSetFanSpeedProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveSetFanSpeedJSON") + n("rpc/comfo.(*comfoServer).serveSetFanSpeedProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveSetFanSpeedJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveSetFanSpeedJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveSetFanSpeedJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveSetFanSpeedJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveSetFanSpeedProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveSetFanSpeedProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveSetFanSpeedProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveSetFanSpeedProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveSetFanSpeedJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveSetFanSpeedProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveSetFanSpeedJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveSetFanSpeedProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanSpeed", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveSetComfortTemp(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveSetComfortTempJSON, rpc/comfo.(*comfoServer).serveSetComfortTempProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveSetComfortTempJSON") + n("rpc/comfo.(*comfoServer).serveSetComfortTempProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveSetComfortTempJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveSetComfortTempJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveSetComfortTempJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveSetComfortTempJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveSetComfortTempProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveSetComfortTempProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveSetComfortTempProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveSetComfortTempProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveSetComfortTempJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveSetComfortTempProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveSetComfortTempJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveSetComfortTempProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetComfortTemp", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveSetFanProfile(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveSetFanProfileJSON, rpc/comfo.(*comfoServer).serveSetFanProfileProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveSetFanProfileJSON") + n("rpc/comfo.(*comfoServer).serveSetFanProfileProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveSetFanProfileJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveSetFanProfileJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveSetFanProfileJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveSetFanProfileJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveSetFanProfileProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveSetFanProfileProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveSetFanProfileProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveSetFanProfileProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveSetFanProfileJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveSetFanProfileProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveSetFanProfileJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveSetFanProfileProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.SetFanProfile", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveFlushCache(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serveFlushCacheJSON, rpc/comfo.(*comfoServer).serveFlushCacheProtobuf
  ensures [C26] "one decoder or an error": n("rpc/comfo.(*comfoServer).serveFlushCacheJSON") + n("rpc/comfo.(*comfoServer).serveFlushCacheProtobuf") + n("rpc/comfo.(*comfoServer).writeError") == 1
  ensures [C26] "the same request": (n("rpc/comfo.(*comfoServer).serveFlushCacheJSON") == 1 ==> arg("rpc/comfo.(*comfoServer).serveFlushCacheJSON", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveFlushCacheJSON", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveFlushCacheJSON", 1, 3) == req) && (n("rpc/comfo.(*comfoServer).serveFlushCacheProtobuf") == 1 ==> arg("rpc/comfo.(*comfoServer).serveFlushCacheProtobuf", 1, 0) == s && arg("rpc/comfo.(*comfoServer).serveFlushCacheProtobuf", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).serveFlushCacheProtobuf", 1, 3) == req) && unchanged(deref(req))
  ensures [C26] "JSON requests": n("(net/http.Header).Get") >= 1 && arg("(net/http.Header).Get", 1, 1) == "Content-Type" && (ret("(net/http.Header).Get", 1, 0) == "application/json" || prefix("application/json;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveFlushCacheJSON") == 1)
  ensures [C26] "protobuf requests": n("(net/http.Header).Get") >= 1 && (ret("(net/http.Header).Get", 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret("(net/http.Header).Get", 1, 0)) ==> n("rpc/comfo.(*comfoServer).serveFlushCacheProtobuf") == 1)

func rpc/comfo.(*comfoServer).serveFlushCacheJSON(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") >= 1 && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1 ==> n("(*encoding/json.Decoder).Decode") == 1 && arg("(*encoding/json.Decoder).Decode", 1, 0) == req.Body && ret("(*encoding/json.Decoder).Decode", 1, 0) == nil && n("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == bytes(ret("(*encoding/json.Decoder).Decode", 1, 1)) && ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 2) == arg("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 2)), ret("(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 0) != nil ==> n("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal") == 1 && arg("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 0) && (ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1

func rpc/comfo.(*comfoServer).serveFlushCacheProtobuf(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") && n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") <= 1
  ensures [C26] "of this service": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1 ==> arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n("google.golang.org/protobuf/proto.Unmarshal") >= 1 && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil ==> n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1
  ensures [C26] "with the decoded request": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1 ==> n("io.ReadAll") == 1 && arg("io.ReadAll", 1, 0) == req.Body && ret("io.ReadAll", 1, 1) == nil && n("google.golang.org/protobuf/proto.Unmarshal") == 1 && arg("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == bytes(ret("io.ReadAll", 1, 0)) && ret("google.golang.org/protobuf/proto.Unmarshal", 1, 0) == nil && arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 2) == arg("google.golang.org/protobuf/proto.Unmarshal", 1, 1) && same(deref(arg("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 2)), ret("google.golang.org/protobuf/proto.Unmarshal", 1, 1))
  ensures [C26] "a service error is answered with itself": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 1) != nil ==> n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache") == 1 && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 1) == nil && ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 0) != nil ==> n("google.golang.org/protobuf/proto.Marshal") == 1 && arg("google.golang.org/protobuf/proto.Marshal", 1, 0) == ret("github.com/ti-mo/comfo/rpc/comfo.Comfo.FlushCache", 1, 0) && (ret("google.golang.org/protobuf/proto.Marshal", 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret("google.golang.org/protobuf/proto.Marshal", 1, 0)) && n("rpc/comfo.(*comfoServer).writeError") == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n("rpc/comfo.(*comfoServer).writeError") + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1
