# Sourced by the checks: the toolchain, offline.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
unset PGHOST PGPORT PGUSER PGDATABASE PGPASSWORD PGSSLMODE GODEBUG GOEXPERIMENT
