# Sourced by the scripts of /verif/bin: the offline Go toolchain.
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; else
  export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false CGO_ENABLED=0
fi
export GOFLAGS="-buildvcs=false -mod=mod" GOWORK=off
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
