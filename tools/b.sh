cd /verif/analyzer; . /opt/vp/env.sh; export GOFLAGS=-mod=vendor; go vet . && go build -trimpath -o /verif/bin/an . 
