#!/bin/bash
# build.sh OUT harness.c [more sources]: compiles all of /repo/src with access instrumentation, redirects its
# library calls to the simulator and links it with the runtime and a harness into OUT/harness.
# REPO may point to another tree (development only; checks use /repo).
set -e
OUT=$1; H=$2; shift 2
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/o"
cat > "$OUT/Makefile" <<'MK'
CC=gcc
SRCS:=$(shell find $(REPO)/src -name '*.c' | sort)
OBJS:=$(patsubst $(REPO)/src/%.c,o/%.o,$(SRCS))
RT:=rt/mcrt.o rt/mcsim.o rt/mcexp.o
CF=-std=c99 -O1 -g -w -U_FORTIFY_SOURCE -fno-omit-frame-pointer -fno-pie -fsanitize=thread --param=tsan-distinguish-volatile=1 -fsanitize=bounds,integer-divide-by-zero -fsanitize-undefined-trap-on-error -fstack-protector-strong \
  -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fno-builtin-memcmp -fno-builtin-strlen -fno-builtin-strncpy -fno-builtin-strcpy -fno-builtin-strdup -fno-builtin-printf -fno-builtin-fprintf -fno-builtin-fputs -fno-builtin-puts -fno-builtin-malloc -fno-builtin-free -fno-builtin-calloc -fno-inline -fno-optimize-sibling-calls
all: harness
rt/%.o: $(HERE)/%.c $(HERE)/mcint.h $(HERE)/mcrt.h
	@mkdir -p rt; $(CC) -std=gnu11 -O2 -g -w -fno-pie -U_FORTIFY_SOURCE -I$(HERE) -c $< -o $@
redefs: $(RT)
	@nm $(RT) | awk '$$2 ~ /[TDBR]/ && $$3 ~ /^mcw_/ {print substr($$3,5), $$3}' | sort -u > $@; echo "main sdr_main" >> $@; echo "stop stop" > /dev/null
o/%.o: $(REPO)/src/%.c redefs
	@mkdir -p $(dir $@); $(CC) $(CF) -I$(REPO)/src -c $< -o $@.tmp && objcopy --redefine-syms=redefs $@.tmp $@ && rm -f $@.tmp
rt/h.o: $(H)
	@mkdir -p rt; $(CC) -std=gnu11 -O1 -g -w -fno-pie -U_FORTIFY_SOURCE -I$(HERE) -I$(HERE)/../ref -I$(REPO)/src -c $< -o $@
harness: $(OBJS) $(RT) rt/h.o
	@$(CC) -no-pie -o $@ $^ -lprotobuf-c -lconfig -lvolk -lm -ldl -lpthread
MK
make -s -j8 -C "$OUT" REPO="$REPO" HERE="$HERE" H="$(realpath "$H")" all
