# r.sh SRC ENTRIES [opts]: run with all include dirs
I="-I/verif/stubs"; for d in core majordomo serialiser disruptor services zmq client; do I="$I -I${REPO:-/repo}/src/$d/include"; done
S=$1; En=$2; shift 2
bash /verif/tools/run.sh $S "$I $DEF" $En "$*" 2>&1 | cut -c1-${W:-700}
