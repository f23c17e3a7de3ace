cd /tmp/ys && g++-14 -std=c++23 -O0 -I/verif/stubs -I. $(for d in core serialiser; do echo -I/repo/src/$d/include; done) -I/repo/src/serialiser/test t.cpp -o t -lCatch2Main -lCatch2 2>&1 | grep -m5 error; ./t 2>&1 | tail -4
