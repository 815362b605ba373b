if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
