export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOCACHE=/root/.cache/go-build GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
