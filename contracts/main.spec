# The program: connecting to the unit (C24), the HTTP wrappers and the router (C25).

func main.ConnectUnit(mode, unit) (conn, err)
  ensures [C24] "tcp dials exactly the given address": mode == "tcp" ==> n("net.Dial") == 1 && n("github.com/tarm/serial.OpenPort") == 0 && arg("net.Dial", 1, 0) == "tcp" && arg("net.Dial", 1, 1) == unit
  ensures [C24] "serial opens exactly the given device at 9600 baud": mode == "serial" ==> n("net.Dial") == 0 && n("github.com/tarm/serial.OpenPort") == 1 && arg("github.com/tarm/serial.OpenPort", 1, 0) == unit && arg("github.com/tarm/serial.OpenPort", 1, 1) == 9600
  ensures [C24] "serial uses 8 data bits, no parity, one stop bit and waits for data": mode == "serial" ==> arg("github.com/tarm/serial.OpenPort", 1, 2) == 0 && (arg("github.com/tarm/serial.OpenPort", 1, 3) == 0 || arg("github.com/tarm/serial.OpenPort", 1, 3) == 8) && (arg("github.com/tarm/serial.OpenPort", 1, 4) == 0 || arg("github.com/tarm/serial.OpenPort", 1, 4) == 78) && (arg("github.com/tarm/serial.OpenPort", 1, 5) == 0 || arg("github.com/tarm/serial.OpenPort", 1, 5) == 1)
  ensures [C24] "any other mode opens nothing": mode != "tcp" && mode != "serial" ==> n("net.Dial") == 0 && n("github.com/tarm/serial.OpenPort") == 0 && err != nil
  ensures [C24] "tcp: the connection or the error": mode == "tcp" ==> (if ret("net.Dial", 1, 1) == nil then err == nil && conn == ret("net.Dial", 1, 0) else err != nil)
  ensures [C24] "serial: the connection or the error": mode == "serial" ==> (if ret("github.com/tarm/serial.OpenPort", 1, 1) == nil then err == nil && conn == ret("github.com/tarm/serial.OpenPort", 1, 0) else err != nil)
  ensures [C24] "no connection comes with an error": err != nil ==> conn == nil
  ensures [C24] "success comes with a connection": err == nil ==> conn != nil
  ensures [C24] "nothing opened is closed again": n("Close") == 0

def INNER = "net/http.Handler.ServeHTTP"

def UNTOUCHED = n("net/http.ResponseWriter.Write") == 0 && n("net/http.ResponseWriter.WriteHeader") == 0 && n("(net/http.Header).Add") == 0 && n("(net/http.Header).Del") == 0

func main.Logger(inner, name) (h)
  apply (w, r)
  ensures [C25] "calls the wrapped handler once": n(INNER) == 1 && arg(INNER, 1, 0) == inner
  ensures [C25] "with the same writer and request": arg(INNER, 1, 1) == w && arg(INNER, 1, 2) == r && unchanged(deref(r))
  ensures [C25] "adds nothing to the response": UNTOUCHED && n("(net/http.Header).Set") == 0

func main.Headers(inner) (h)
  apply (w, r)
  ensures [C25] "calls the wrapped handler once": n(INNER) == 1 && arg(INNER, 1, 0) == inner
  ensures [C25] "with the same writer and request": arg(INNER, 1, 1) == w && arg(INNER, 1, 2) == r && unchanged(deref(r))
  ensures [C25] "sets the JSON content type before": n("(net/http.Header).Set") == 1 && arg("(net/http.Header).Set", 1, 0) == ret("net/http.ResponseWriter.Header", 1, 0) && arg("net/http.ResponseWriter.Header", 1, 0) == w && arg("(net/http.Header).Set", 1, 1) == "Content-Type" && arg("(net/http.Header).Set", 1, 2) == "application/json; charset=UTF-8" && order("(net/http.Header).Set", 1) < order(INNER, 1)
  ensures [C25] "adds nothing else to the response": UNTOUCHED

# The route is found by its prefix alone, and the handler behind it is the logged RPC handler. What the RPC
# handler is made of is what ServeHTTP requires (rpc.spec).
func main.NewRouter() (router)
  events main.Logger, main.Headers
  ensures [C25] "one router is made and returned": n("github.com/gorilla/mux.NewRouter") == 1 && router == ret("github.com/gorilla/mux.NewRouter", 1, 0)
  ensures [C25] "one route, for the RPC path prefix": n("(*github.com/gorilla/mux.Router).PathPrefix") == 1 && arg("(*github.com/gorilla/mux.Router).PathPrefix", 1, 0) == router && arg("(*github.com/gorilla/mux.Router).PathPrefix", 1, 1) == "/twirp/comfo.api.Comfo/"
  ensures [C25] "the route has one handler": n("(*github.com/gorilla/mux.Route).Handler") == 1 && n("(*github.com/gorilla/mux.Route).HandlerFunc") == 0 && arg("(*github.com/gorilla/mux.Route).Handler", 1, 0) == ret("(*github.com/gorilla/mux.Router).PathPrefix", 1, 0)
  ensures [C25] "nothing else decides whether the route is taken": n("(*github.com/gorilla/mux.Route).Methods") + n("(*github.com/gorilla/mux.Route).Host") + n("(*github.com/gorilla/mux.Route).Headers") + n("(*github.com/gorilla/mux.Route).Queries") + n("(*github.com/gorilla/mux.Route).Schemes") + n("(*github.com/gorilla/mux.Route).MatcherFunc") == 0
  ensures [C25] "no other routes or middleware": n("(*github.com/gorilla/mux.Router).Handle") + n("(*github.com/gorilla/mux.Router).HandleFunc") + n("(*github.com/gorilla/mux.Router).Use") + n("(*github.com/gorilla/mux.Router).NewRoute") + n("(*github.com/gorilla/mux.Router).Path") == 0
  ensures [C25] "the handler is the logged RPC handler": n("main.Logger") == 1 && arg("(*github.com/gorilla/mux.Route).Handler", 1, 1) == ret("main.Logger", 1, 0) && typeis(arg("main.Logger", 1, 0), "*rpc/comfo.comfoServer")
  ensures [C25,C26] "the RPC handler serves the service itself": let h = deref(arg("main.Logger", 1, 0)) in typeis(h.Comfo, "*comfoserver.Server") && h.pathPrefix == "/twirp" && h.hooks == nil && h.interceptor == nil

def SERVE = "(*net/http.Server).ListenAndServe"

def CONNECTED = ret("main.ConnectUnit", 1, 1) == nil

# The program as a whole (C30). A setting is what viper gives for its name after start-up.
func main.main()
  events main.ConnectUnit, comfoserver.StartCaches, main.NewRouter
  ensures [C30] "the unit is connected once, as configured": n("main.ConnectUnit") == 1 && arg("main.ConnectUnit", 1, 0) == setting("mode") && arg("main.ConnectUnit", 1, 1) == setting("target")
  ensures [C30] "settings are read from the environment too": n("github.com/spf13/viper.AutomaticEnv") >= 1 && n("github.com/spf13/viper.SetEnvPrefix") == 1 && arg("github.com/spf13/viper.SetEnvPrefix", 1, 0) == "comfo" && order("github.com/spf13/viper.AutomaticEnv", 1) < order("main.ConnectUnit", 1) && order("github.com/spf13/viper.SetEnvPrefix", 1) < order("github.com/spf13/viper.AutomaticEnv", 1) && (n("github.com/spf13/viper.GetString") > 0 ==> order("github.com/spf13/viper.AutomaticEnv", 1) < order("github.com/spf13/viper.GetString", 1))
  ensures [C30] "without a connection nothing is served": !CONNECTED ==> n("comfoserver.StartCaches") == 0 && n(SERVE) == 0
  ensures [C30] "the caches are started once, with the connection": CONNECTED ==> n("comfoserver.StartCaches") == 1 && arg("comfoserver.StartCaches", 1, 0) == ret("main.ConnectUnit", 1, 0)
  ensures [C30] "the router is served once, at the configured address": CONNECTED ==> n(SERVE) == 1 && n("main.NewRouter") == 1 && deref(arg(SERVE, 1, 0)).Addr == setting("listen") && deref(arg(SERVE, 1, 0)).Handler == ret("main.NewRouter", 1, 0)
  ensures [C30] "requests are served with the caches filled": CONNECTED ==> order("comfoserver.StartCaches", 1) < order(SERVE, 1)
  ensures [C30] "the connection stays open while serving": CONNECTED ==> n("Close") == 0 || order("Close", 1) > order(SERVE, 1)
  ensures [C30] "a failure ends the program with a non-zero status": n("os.Exit") == 1 && arg("os.Exit", 1, 0) != 0

def FLAGS = "github.com/spf13/pflag.String"

def FLAG(k, name, value) = n(FLAGS) >= k && arg(FLAGS, k, 0) == name && arg(FLAGS, k, 1) == value

# The settings and their defaults are registered before the command line is read and viper is told about them.
func main.init()
  ensures [C30] "the mode is serial by default": FLAG(1, "mode", "serial") || FLAG(2, "mode", "serial") || FLAG(3, "mode", "serial")
  ensures [C30] "the target is the first USB serial port by default": FLAG(1, "target", "/dev/ttyUSB0") || FLAG(2, "target", "/dev/ttyUSB0") || FLAG(3, "target", "/dev/ttyUSB0")
  ensures [C30] "the address is [::]:3094 by default": FLAG(1, "listen", "[::]:3094") || FLAG(2, "listen", "[::]:3094") || FLAG(3, "listen", "[::]:3094")
  ensures [C30] "all flags are known when the command line is read": n("github.com/spf13/pflag.Parse") == 1 && n(FLAGS) == 3 && order(FLAGS, 3) < order("github.com/spf13/pflag.Parse", 1)
  ensures [C30] "viper takes the settings from the flags": n("github.com/spf13/viper.BindPFlags") == 1 && order("github.com/spf13/viper.BindPFlags", 1) > order("github.com/spf13/pflag.Parse", 1)
