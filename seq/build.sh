#!/bin/bash
# build.sh OUT harness.c: compiles all of /repo/src with address and undefined behaviour instrumentation, redirects its
# allocations, files, clock and vector kernels to seqrt.c, and links it with a harness into OUT/harness.
# REPO may point to another tree (development only; checks use /repo).
set -e
OUT=$1; H=$2; shift 2
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/o"
cat > "$OUT/Makefile" <<'MK'
CC=clang
SRCS:=$(shell find $(REPO)/src -name '*.c' | sort)
OBJS:=$(patsubst $(REPO)/src/%.c,o/%.o,$(SRCS))
SAN=-fsanitize=address,bounds,integer-divide-by-zero,shift,signed-integer-overflow,float-cast-overflow,null,vla-bound -fno-sanitize-recover=all -fno-omit-frame-pointer
CF=-std=gnu99 -O1 -g1 -w -U_FORTIFY_SOURCE -ftrivial-auto-var-init=pattern $(SAN) -fno-builtin-malloc -fno-builtin-free -fno-builtin-calloc -fno-builtin-strdup -fno-builtin-printf -fno-builtin-fprintf -fno-builtin-fputs -fno-builtin-puts
HF=-std=gnu11 -O1 -g1 -w -U_FORTIFY_SOURCE $(SAN)
all: harness
rt/seqrt.o: $(HERE)/seqrt.c $(HERE)/seqrt.h
	@mkdir -p rt; $(CC) $(HF) -I$(HERE) -c $< -o $@
redefs: rt/seqrt.o
	@nm rt/seqrt.o | awk '$$2 ~ /[TDBR]/ && $$3 ~ /^mcw_/ {print substr($$3,5), $$3}' | sort -u > $@; echo "main sdr_main" >> $@
o/%.o: $(REPO)/src/%.c redefs
	@mkdir -p $(dir $@); $(CC) $(CF) -I$(REPO)/src -c $< -o $@.tmp && objcopy --redefine-syms=redefs $@.tmp $@ && rm -f $@.tmp
rt/h.o: $(H)
	@mkdir -p rt; $(CC) $(HF) -I$(HERE) -I$(HERE)/../ref -I$(REPO)/src -c $< -o $@
harness: $(OBJS) rt/seqrt.o rt/h.o
	@$(CC) $(SAN) -o $@ $^ -lprotobuf-c -lconfig -lvolk -lm -ldl -lpthread
MK
make -s -j8 -C "$OUT" REPO="$REPO" HERE="$HERE" H="$(realpath "$H")" all
