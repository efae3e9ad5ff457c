# offline Go environment
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local
