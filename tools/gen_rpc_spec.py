#!/usr/bin/env python3
# Writes contracts/rpc.spec: the same contracts for each method of the service.
methods = {"GetBootInfo": ("Noop", "BootInfo"), "GetTemps": ("Noop", "Temps"), "GetBypass": ("Noop", "Bypass"), "GetFans": ("Noop", "Fans"),
    "GetFanProfiles": ("Noop", "FanProfiles"), "GetErrors": ("Noop", "Errors"), "SetFanSpeed": ("FanSpeedTarget", "FanSpeedModified"),
    "SetComfortTemp": ("ComfortTarget", "ComfortModified"), "SetFanProfile": ("FanProfileTarget", "FanProfileModified"), "FlushCache": ("FlushCacheRequest", "Noop")}
M = list(methods)
svc = lambda m: f'"github.com/ti-mo/comfo/rpc/comfo.Comfo.{m}"'
out = ['''# The generated RPC server (C26). Written by tools/gen_rpc_spec.py: the same contracts for each method.
# NewRouter (main.spec) shows that the served handler has what is required here: the service, no hooks, no interceptor.

def SERVICE(s) = s.Comfo != nil && s.hooks == nil && s.interceptor == nil && s.pathPrefix == "/twirp"

def ALLCALLS = ''' + " + ".join(f"n({svc(m)})" for m in M) + '''

def ALLSERVES = ''' + " + ".join(f'n("rpc/comfo.(*comfoServer).serve{m}")' for m in M) + '''

def WRITE = "net/http.ResponseWriter.Write"

def STATUS = "net/http.ResponseWriter.WriteHeader"

func rpc/comfo.(*comfoServer).writeError(s, ctx, resp, err)
  requires SERVICE(s) && resp != nil && err != nil
  ensures [C26] "one answer, which is an error": n(WRITE) == 1 && arg(WRITE, 1, 0) == resp && n(STATUS) == 1 && arg(STATUS, 1, 0) == resp && arg(STATUS, 1, 1) != 200 && order(STATUS, 1) < order(WRITE, 1)

func rpc/comfo.(*comfoServer).handleRequestBodyError(s, ctx, resp, msg, err)
  requires SERVICE(s) && resp != nil && err != nil
  events rpc/comfo.(*comfoServer).writeError
  ensures [C26] "one answer, which is an error": n("rpc/comfo.(*comfoServer).writeError") == 1 && arg("rpc/comfo.(*comfoServer).writeError", 1, 2) == resp && arg("rpc/comfo.(*comfoServer).writeError", 1, 3) != nil

func rpc/comfo.(*comfoServer).PathPrefix(s) (p)
  requires SERVICE(s)
  ensures [C26] "the prefix requests are routed by": p == "/twirp/comfo.api.Comfo/"

func rpc/comfo.(*comfoServer).ServeHTTP(s, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, ''' + ", ".join(f"rpc/comfo.(*comfoServer).serve{m}" for m in M) + '''
  ensures [C26] "one method or an error": ALLSERVES + n("rpc/comfo.(*comfoServer).writeError") == 1''']
for m in M:
    e = f'"rpc/comfo.(*comfoServer).serve{m}"'
    out.append(f'''  ensures [C26] "{m} is reached by its path only": n({e}) >= 1 ==> old(req.URL.Path) == "/twirp/comfo.api.Comfo/{m}" && old(req.Method) == "POST" && arg({e}, 1, 0) == s && arg({e}, 1, 2) == resp && arg({e}, 1, 3) == req && unchanged(deref(req))''')
for m in M:
    e = f'"rpc/comfo.(*comfoServer).serve{m}"'
    out.append(f'''  behaviour {m}()
    assumes req.Method == "POST" && req.URL.Path == "/twirp/comfo.api.Comfo/{m}"
    ensures [C26] "{m} is reached by its path": n({e}) == 1''')
GET = '"(net/http.Header).Get"'
for m, (i, o) in methods.items():
    j, p, w = (f'"rpc/comfo.(*comfoServer).{x}"' for x in (f"serve{m}JSON", f"serve{m}Protobuf", "writeError"))
    args = lambda e: f"(n({e}) == 1 ==> arg({e}, 1, 0) == s && arg({e}, 1, 2) == resp && arg({e}, 1, 3) == req)"
    out.append(f'''
func rpc/comfo.(*comfoServer).serve{m}(s, ctx, resp, req)
  requires SERVICE(s) && req.URL != nil
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).serve{m}JSON, rpc/comfo.(*comfoServer).serve{m}Protobuf
  ensures [C26] "one decoder or an error": n({j}) + n({p}) + n({w}) == 1
  ensures [C26] "the same request": {args(j)} && {args(p)} && unchanged(deref(req))
  ensures [C26] "JSON requests": n({GET}) >= 1 && arg({GET}, 1, 1) == "Content-Type" && (ret({GET}, 1, 0) == "application/json" || prefix("application/json;", ret({GET}, 1, 0)) ==> n({j}) == 1)
  ensures [C26] "protobuf requests": n({GET}) >= 1 && (ret({GET}, 1, 0) == "application/protobuf" || prefix("application/protobuf;", ret({GET}, 1, 0)) ==> n({p}) == 1)''')
    for kind in ("JSON", "Protobuf"):
        if kind == "JSON":
            un = '"(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal"'
            ma = '"(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal"'
            rd = '"(*encoding/json.Decoder).Decode"'
            body = f'arg({rd}, 1, 0) == req.Body && ret({rd}, 1, 0) == nil'
            raw = f'arg({un}, 1, 0) == bytes(ret({rd}, 1, 1))'
            ct = "application/json"
        else:
            un, ma, rd = '"google.golang.org/protobuf/proto.Unmarshal"', '"google.golang.org/protobuf/proto.Marshal"', '"io.ReadAll"'
            body = f'arg({rd}, 1, 0) == req.Body && ret({rd}, 1, 1) == nil'
            raw = f'arg({un}, 1, 0) == bytes(ret({rd}, 1, 0))'
            ct = "application/protobuf"
        w = '"rpc/comfo.(*comfoServer).writeError"'
        S = svc(m)
        out.append(f'''
func rpc/comfo.(*comfoServer).serve{m}{kind}(s, ctx, resp, req)
  requires SERVICE(s)
  events rpc/comfo.(*comfoServer).writeError, rpc/comfo.(*comfoServer).handleRequestBodyError
  ensures [C26] "only the method of its name": ALLCALLS == n({S}) && n({S}) <= 1
  ensures [C26] "of this service": n({S}) == 1 ==> arg({S}, 1, 0) == s.Comfo
  ensures [C26] "a request that can be decoded calls it": n({un}) >= 1 && ret({un}, 1, 0) == nil ==> n({S}) == 1
  ensures [C26] "with the decoded request": n({S}) == 1 ==> n({rd}) == 1 && {body} && n({un}) == 1 && {raw} && ret({un}, 1, 0) == nil && arg({S}, 1, 2) == arg({un}, 1, 1) && same(deref(arg({S}, 1, 2)), ret({un}, 1, 1))
  ensures [C26] "a service error is answered with itself": n({S}) == 1 && ret({S}, 1, 1) != nil ==> n({w}) == 1 && arg({w}, 1, 3) == ret({S}, 1, 1) && n("net/http.ResponseWriter.Write") == 0
  ensures [C26] "answers with the message returned": n({S}) == 1 && ret({S}, 1, 1) == nil && ret({S}, 1, 0) != nil ==> n({ma}) == 1 && arg({ma}, 1, 0) == ret({S}, 1, 0) && (ret({ma}, 1, 1) == nil ==> n("net/http.ResponseWriter.Write") == 1 && arg("net/http.ResponseWriter.Write", 1, 0) == resp && bytes(arg("net/http.ResponseWriter.Write", 1, 1)) == bytes(ret({ma}, 1, 0)) && n({w}) == 0 && n("net/http.ResponseWriter.WriteHeader") == 1 && arg("net/http.ResponseWriter.WriteHeader", 1, 1) == 200)
  ensures [C26] "one answer": n("net/http.ResponseWriter.Write") + n({w}) + n("rpc/comfo.(*comfoServer).handleRequestBodyError") == 1''')
open(__file__.rsplit("/", 2)[0] + "/contracts/rpc.spec", "w").write("\n".join(out) + "\n")
