# The Go environment of the checks: offline, module cache only.
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  if [ -x "$d/go" ]; then PATH=$d:$PATH; break; fi
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
