// fakeiio.h: a pluto behind the function table of iio_lib.h. It records what is written to it, refuses what the AD9361
// refuses, and reports every misuse. The including file defines FI_FAULT(call) (true: this call fails), FI_BAD(fmt...)
// (misuse) and FI_RX_LEN(max) (samples of the next receive buffer, < 0: an error).
#include "sdr/iio_lib.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <stdint.h>
#ifndef FI_POINT
#define FI_POINT(call)   // called at the start of every call that uses a resource
#endif
struct iio_context { int live, timeout; };
struct iio_scan_context { int live; };
struct iio_context_info { int x; };
struct iio_device { char name[40]; };
struct iio_channel { struct iio_device *dev; char name[24]; bool output; int enabled; };
struct iio_buffer { struct iio_device *dev; size_t n, filled; int16_t *data; int live; };
static struct fi {
    struct iio_context ctx[8]; int nctx, live_ctx; struct iio_scan_context scan; int live_scan, live_info; struct iio_context_info info, *infos[2];
    struct iio_device dev[3]; struct iio_channel ch[40]; int nch;
    struct iio_buffer *buf[16]; int nbuf, live_buf, enabled;
    struct fi_attr { const struct iio_device *dev; char ch[24]; bool out; char attr[40]; char val[32]; double num; } at[64]; int nat;
    char fir[8200]; size_t firlen; bool fir_on; int fir_rx, fir_tx, fir_off; long long rate; bool no_dev_fir; bool other_device;
    int16_t *tx; size_t ntx, captx; uint32_t nrx; int writes, calls;
} FI;
static int16_t fi_rx_val(uint32_t i) { static const int16_t X[] = {0, 1, -1, 2047, -2048, 2048, 32767, -32768}; return i % 11 < 8 ? X[i % 11] : (int16_t) (i * 40503u >> 3); }
static void fi_reset(void) {
    for (int i = 0; i < FI.nbuf; i++) { free(FI.buf[i]->data); free(FI.buf[i]); } free(FI.tx);
    memset(&FI, 0, sizeof FI); strcpy(FI.dev[0].name, "ad9361-phy"); strcpy(FI.dev[1].name, "cf-ad9361-dds-core-lpc"); strcpy(FI.dev[2].name, "cf-ad9361-lpc"); FI.rate = 30720000;
}
static bool fi_f(const char *c) { FI.calls++; if (FI_FAULT(c)) { errno = EIO; return true; } return false; }
static void fi_ctx_ok(const struct iio_context *c, const char *w) { FI_POINT(w); if (!c || c < FI.ctx || c >= FI.ctx + 8 || !c->live) FI_BAD("%s without a context", w); }
static void fi_buf_ok(const struct iio_buffer *b, const char *w) { FI_POINT(w); bool k = false; for (int i = 0; i < FI.nbuf; i++) k |= FI.buf[i] == b; if (!k || !b->live) FI_BAD("%s on a buffer that does not exist", w); }
static void fi_ch_ok(const struct iio_channel *c, const char *w) { FI_POINT(w); if (!c || c < FI.ch || c >= FI.ch + FI.nch) FI_BAD("%s without a channel", w); if (!FI.live_ctx) FI_BAD("%s after the context was destroyed", w); }
static void fi_dev_ok(const struct iio_device *d, const char *w) { FI_POINT(w); if (!d || d < FI.dev || d >= FI.dev + 3) FI_BAD("%s without a device", w); if (!FI.live_ctx) FI_BAD("%s after the context was destroyed", w); }
static void fi_set(const struct iio_device *d, const char *ch, bool out, const char *attr, const char *val, double num) {
    FI.writes++; struct fi_attr *a = NULL;
    for (int i = 0; i < FI.nat; i++) if (FI.at[i].dev == d && !strcmp(FI.at[i].ch, ch) && FI.at[i].out == out && !strcmp(FI.at[i].attr, attr)) a = &FI.at[i];
    if (!a) { if (FI.nat == 64) FI_BAD("too many attributes"); a = &FI.at[FI.nat++]; a->dev = d; snprintf(a->ch, sizeof a->ch, "%s", ch); a->out = out; snprintf(a->attr, sizeof a->attr, "%s", attr); }
    snprintf(a->val, sizeof a->val, "%s", val); a->num = num;
}
static const struct fi_attr *fi_get(int dev, const char *ch, bool out, const char *attr) { for (int i = 0; i < FI.nat; i++) if (FI.at[i].dev == &FI.dev[dev] && !strcmp(FI.at[i].ch, ch) && FI.at[i].out == out && !strcmp(FI.at[i].attr, attr)) return &FI.at[i]; return NULL; }
static void *fi_buffer_end(const struct iio_buffer *b) { fi_buf_ok(b, "end"); return (char *) (b->data + b->filled * 2); }
static void *fi_buffer_first(const struct iio_buffer *b, const struct iio_channel *c) { fi_buf_ok(b, "first"); fi_ch_ok(c, "first"); if (c->dev != b->dev) FI_BAD("a channel of another device is used"); if (c->name[7] != '0') return b->data + 1; return b->data; }
static ssize_t fi_buffer_push_partial(struct iio_buffer *b, size_t n) {
    fi_buf_ok(b, "push"); if (b->dev != &FI.dev[1]) FI_BAD("a receive buffer is pushed"); if (n > b->n || n == 0) FI_BAD("%zu samples are pushed from a buffer of %zu", n, b->n);
    if (fi_f("push")) return -EIO;
    if (FI.ntx + n > FI.captx) { FI.captx = (FI.ntx + n) * 2; FI.tx = realloc(FI.tx, FI.captx * 4); }
    memcpy(FI.tx + FI.ntx * 2, b->data, n * 4); FI.ntx += n; memset(b->data, 0x7b, b->n * 4); return n * 4;
}
static ssize_t fi_buffer_refill(struct iio_buffer *b) {
    fi_buf_ok(b, "refill"); if (b->dev != &FI.dev[2]) FI_BAD("a transmit buffer is refilled"); if (fi_f("refill")) return -EIO;
    int n = FI_RX_LEN((int) b->n); if (n < 0) return n; b->filled = n; for (int i = 0; i < 2 * n; i++) b->data[i] = fi_rx_val(FI.nrx++); return n * 4;
}
static struct iio_device *fi_context_find_device(const struct iio_context *c, const char *name) { fi_ctx_ok(c, "find_device"); if (fi_f("find_device") || FI.other_device) return NULL; for (int i = 0; i < 3; i++) if (!strcmp(name, FI.dev[i].name)) return &FI.dev[i]; return NULL; }
static struct iio_channel *fi_device_find_channel(const struct iio_device *d, const char *name, bool out) {
    static const struct { int dev; const char *n; bool out; } CH[] = {{0, "altvoltage0", true}, {0, "altvoltage1", true}, {0, "voltage0", true}, {0, "voltage0", false}, {0, "out", false}, {1, "voltage0", true}, {1, "voltage1", true}, {2, "voltage0", false}, {2, "voltage1", false}, {1, "TX1_I_F1", true}, {1, "TX1_Q_F1", true}, {1, "TX1_I_F2", true}, {1, "TX1_Q_F2", true}};
    fi_dev_ok(d, "find_channel"); if (fi_f("find_channel")) return NULL;
    for (int i = 0; i < FI.nch; i++) if (FI.ch[i].dev == d && !strcmp(FI.ch[i].name, name) && FI.ch[i].output == out) return &FI.ch[i];
    for (int i = 0; i < (int) (sizeof CH / sizeof *CH); i++) if (&FI.dev[CH[i].dev] == d && !strcmp(name, CH[i].n) && out == CH[i].out) { struct iio_channel *c = &FI.ch[FI.nch++]; c->dev = (struct iio_device *) d; strcpy(c->name, name); c->output = out; return c; }
    return NULL;
}
static void fi_strerror(int e, char *dst, size_t len) { if (e <= 0) FI_BAD("strerror of %d", e); snprintf(dst, len, "error %d", e); }
static ssize_t fi_channel_attr_write(const struct iio_channel *c, const char *a, const char *src) { fi_ch_ok(c, "write"); if (fi_f(a)) return -EIO; fi_set(c->dev, c->name, c->output, a, src, 0); return strlen(src); }
static int fi_channel_attr_write_longlong(const struct iio_channel *c, const char *a, long long v) {
    fi_ch_ok(c, "write"); if (fi_f(a)) return -EIO;
    if (c->dev == &FI.dev[0] && !strcmp(a, "sampling_frequency")) { int d = FI.fir_on ? (c->output ? FI.fir_tx : FI.fir_rx) : 1; if (v > 61440000 || v * d * 12 < 25000000) return -EINVAL; FI.rate = v; }
    char t[32]; snprintf(t, sizeof t, "%lld", v); fi_set(c->dev, c->name, c->output, a, t, (double) v); return 0;
}
static int fi_fir(bool v) { if (v && !FI.firlen) return -EINVAL; if (!v && FI.rate * 12 < 25000000) return -EINVAL; FI.fir_on = v; return 0; }
static int fi_device_attr_write_bool(const struct iio_device *d, const char *a, bool v) { fi_dev_ok(d, "write"); if (fi_f(a)) return -EIO; if (!strcmp(a, "in_out_voltage_filter_fir_en")) { if (FI.no_dev_fir) return -ENOENT; int c = fi_fir(v); if (c) return c; } fi_set(d, "", 0, a, v ? "1" : "0", v); return 0; }
static int fi_channel_attr_write_bool(const struct iio_channel *c, const char *a, bool v) { fi_ch_ok(c, "write"); if (fi_f(a)) return -EIO; if (!strcmp(a, "voltage_filter_fir_en")) { int e = fi_fir(v); if (e) return e; } fi_set(c->dev, c->name, c->output, a, v ? "1" : "0", v); return 0; }
static int fi_channel_attr_write_double(const struct iio_channel *c, const char *a, double v) { fi_ch_ok(c, "write"); if (fi_f(a)) return -EIO; char t[32]; snprintf(t, sizeof t, "%g", v); fi_set(c->dev, c->name, c->output, a, t, v); return 0; }
static ssize_t fi_device_attr_write_raw(const struct iio_device *d, const char *a, const void *src, size_t len) {
    fi_dev_ok(d, "write"); if (fi_f(a)) return -EIO; 
    if (!strcmp(a, "filter_fir_config")) { if (len >= sizeof FI.fir) return -EINVAL; memcpy(FI.fir, src, len); FI.fir[len] = 0; FI.firlen = len; FI.fir_rx = FI.fir_tx = 1; char *p = strstr(FI.fir, "DEC "); if (p) FI.fir_rx = atoi(p + 4); p = strstr(FI.fir, "INT "); if (p) FI.fir_tx = atoi(p + 4); }
    fi_set(d, "", 0, a, "", len); return len;
}
static struct iio_scan_context *fi_create_scan_context(const char *b, unsigned f) { if (fi_f("scan")) return NULL; FI.live_scan++; return &FI.scan; }
static ssize_t fi_scan_info(struct iio_scan_context *c, struct iio_context_info ***i) { if (c != &FI.scan || !FI.live_scan) FI_BAD("scan without a scan context"); if (fi_f("info list")) return -EIO; if (fi_f("no context")) return 0; FI.infos[0] = &FI.info; *i = FI.infos; FI.live_info++; return 1; }
static void fi_scan_destroy(struct iio_scan_context *c) { if (c != &FI.scan || !FI.live_scan) FI_BAD("a scan context is destroyed twice"); FI.live_scan--; }
static const char *fi_uri(const struct iio_context_info *i) { if (i != &FI.info || !FI.live_info) FI_BAD("uri of nothing"); return "usb:1.2.3"; }
static struct iio_context *fi_create_ctx(const char *uri) { if (!uri || strcmp(uri, "usb:1.2.3")) FI_BAD("context of an unknown uri"); if (fi_f("create context")) return NULL; if (FI.live_ctx) FI_BAD("a second context"); if (FI.nctx == 8) FI_BAD("too many contexts"); struct iio_context *c = &FI.ctx[FI.nctx++]; c->live = 1; FI.live_ctx++; return c; }
static void fi_info_free(struct iio_context_info **i) { if (i != FI.infos || !FI.live_info) FI_BAD("the context list is freed twice"); FI.live_info--; }
static int fi_set_timeout(struct iio_context *c, unsigned ms) { fi_ctx_ok(c, "set_timeout"); if (fi_f("set_timeout")) return -EIO; c->timeout = ms; return 0; }
static void fi_channel_enable(struct iio_channel *c) { fi_ch_ok(c, "enable"); if (!c->enabled) { c->enabled = 1; FI.enabled++; } }
static void fi_channel_disable(struct iio_channel *c) { fi_ch_ok(c, "disable"); if (c->enabled) { c->enabled = 0; FI.enabled--; } }
static struct iio_buffer *fi_create_buffer(const struct iio_device *d, size_t n, bool cyclic) {
    fi_dev_ok(d, "create_buffer"); if (cyclic) FI_BAD("a cyclic buffer"); int e = 0; for (int i = 0; i < FI.nch; i++) if (FI.ch[i].dev == d && FI.ch[i].enabled) e++; if (e != 2) FI_BAD("a buffer is created with %d enabled channels", e);
    for (int i = 0; i < FI.nbuf; i++) if (FI.buf[i]->live && FI.buf[i]->dev == d) FI_BAD("a second buffer of a device");
    if (fi_f("create_buffer")) return NULL; if (FI.nbuf == 16) FI_BAD("too many buffers"); struct iio_buffer *b = calloc(1, sizeof *b); b->dev = (struct iio_device *) d; b->n = n; b->live = 1; b->data = malloc(n * 4 + 1); FI.buf[FI.nbuf++] = b; FI.live_buf++; return b;
}
static void fi_buffer_destroy(struct iio_buffer *b) { fi_buf_ok(b, "destroy"); b->live = 0; FI.live_buf--; free(b->data); b->data = NULL; }
static void fi_context_destroy(struct iio_context *c) { fi_ctx_ok(c, "destroy"); if (FI.live_buf) FI_BAD("the context is destroyed before its buffers"); c->live = 0; FI.live_ctx--; }
static void fi_lib(iio_lib *l) {
    memset(l, 0, sizeof *l);
    l->iio_buffer_end = fi_buffer_end; l->iio_buffer_first = fi_buffer_first; l->iio_buffer_push_partial = fi_buffer_push_partial; l->iio_buffer_refill = fi_buffer_refill; l->iio_context_find_device = fi_context_find_device; l->iio_device_find_channel = fi_device_find_channel;
    l->iio_strerror = fi_strerror; l->iio_channel_attr_write = fi_channel_attr_write; l->iio_channel_attr_write_longlong = fi_channel_attr_write_longlong; l->iio_device_attr_write_bool = fi_device_attr_write_bool; l->iio_channel_attr_write_bool = fi_channel_attr_write_bool; l->iio_channel_attr_write_double = fi_channel_attr_write_double; l->iio_device_attr_write_raw = fi_device_attr_write_raw;
    l->iio_create_scan_context = fi_create_scan_context; l->iio_scan_context_get_info_list = fi_scan_info; l->iio_scan_context_destroy = fi_scan_destroy; l->iio_context_info_get_uri = fi_uri; l->iio_create_context_from_uri = fi_create_ctx; l->iio_context_info_list_free = fi_info_free; l->iio_context_set_timeout = fi_set_timeout;
    l->iio_channel_enable = fi_channel_enable; l->iio_device_create_buffer = fi_create_buffer; l->iio_buffer_destroy = fi_buffer_destroy; l->iio_channel_disable = fi_channel_disable; l->iio_context_destroy = fi_context_destroy;
}
// nothing of the radio is held
static const char *fi_held(void) { return FI.live_buf ? "a buffer" : FI.enabled ? "an enabled channel" : FI.live_ctx ? "the context" : FI.live_scan ? "a scan context" : FI.live_info ? "a context list" : NULL; }
// filters of libad9361
static const int16_t FI_T4[128] = {-15, -27, -23, -6, 17, 33, 31, 9, -23, -47, -45, -13, 34, 69, 67, 21, -49, -102, -99, -32, 69, 146, 143, 48, -96, -204, -200, -69, 129, 278, 275, 97, -170, -372, -371, -135, 222, 494, 497, 187, -288, -654, -665, -258, 376, 875, 902, 363, -500, -1201, -1265, -530, 699, 1748, 1906, 845, -1089, -2922, -3424, -1697, 2326, 7714, 12821, 15921,
    15921, 12821, 7714, 2326, -1697, -3424, -2922, -1089, 845, 1906, 1748, 699, -530, -1265, -1201, -500, 363, 902, 875, 376, -258, -665, -654, -288, 187, 497, 494, 222, -135, -371, -372, -170, 97, 275, 278, 129, -69, -200, -204, -96, 48, 143, 146, 69, -32, -99, -102, -49, 21, 67, 69, 34, -13, -45, -47, -23, 9, 31, 33, 17, -6, -23, -27, -15};
static const int16_t FI_T2[128] = {0, 0, 1, 0, -2, 0, 3, 0, -5, 0, 8, 0, -11, 0, 17, 0, -24, 0, 33, 0, -45, 0, 61, 0, -80, 0, 104, 0, -134, 0, 169, 0, -213, 0, 264, 0, -327, 0, 401, 0, -489, 0, 595, 0, -724, 0, 880, 0, -1075, 0, 1323, 0, -1652, 0, 2114, 0, -2819, 0, 4056, 0, -6883, 0, 20837, 32767,
    20837, 0, -6883, 0, 4056, 0, -2819, 0, 2114, 0, -1652, 0, 1323, 0, -1075, 0, 880, 0, -724, 0, 595, 0, -489, 0, 401, 0, -327, 0, 264, 0, -213, 0, 169, 0, -134, 0, 104, 0, -80, 0, 61, 0, -45, 0, 33, 0, -24, 0, 17, 0, -11, 0, 8, 0, -5, 0, 3, 0, -2, 0, 1, 0, 0, 0};
static int fi_dec(uint64_t fs) { return fs < 520834 ? -1 : fs < 1041667 ? 4 : fs < 2083334 ? 2 : 0; }
// the filter the request implies; NULL: as it should be
static const char *fi_fir_wrong(int rxd, int txd) {   // decimation of either side, 0: none, -2: side not used
    static char why[120]; int r = rxd > 0 ? rxd : txd > 0 ? txd : 0, t = txd > 0 ? txd : r;
    if (r == 0) { if (FI.fir_on) return "the filter is enabled although it is not needed"; return NULL; }
    if (!FI.fir_on) return "the filter is not enabled";
    int a = 0, b = 0, at = 0; char *p = FI.fir; if (sscanf(p, "RX 3 GAIN -6 DEC %d\nTX 3 GAIN 0 INT %d\n%n", &a, &b, &at) != 2 || a != r || b != t) { snprintf(why, sizeof why, "the filter is set to decimation %d and interpolation %d instead of %d and %d", a, b, r, t); return why; }
    p += at; const int16_t *tr = r == 4 ? FI_T4 : FI_T2, *tt = t == 4 ? FI_T4 : FI_T2;
    for (int i = 0; i < 128; i++) { int x, y, k; if (sscanf(p, "%d,%d\n%n", &x, &y, &k) != 2 || x != tt[i] || y != tr[i]) { snprintf(why, sizeof why, "filter tap %d is wrong", i); return why; } p += k; }
    return NULL;
}
static const char *fi_stream_wrong(bool tx, uint64_t center, uint64_t fs, double gain, int mode) {
    static char why[160]; const struct fi_attr *a;
    a = fi_get(0, tx ? "altvoltage1" : "altvoltage0", true, "frequency"); if (!a || strtoull(a->val, 0, 10) != center) { snprintf(why, sizeof why, "%s frequency is %s instead of %llu", tx ? "tx" : "rx", a ? a->val : "not set", (unsigned long long) center); return why; }
    a = fi_get(0, "voltage0", tx, "rf_bandwidth"); if (!a || strtoull(a->val, 0, 10) != fs) { snprintf(why, sizeof why, "%s bandwidth is %s instead of %llu", tx ? "tx" : "rx", a ? a->val : "not set", (unsigned long long) fs); return why; }
    a = fi_get(0, "voltage0", tx, "sampling_frequency"); if (!a || strtoull(a->val, 0, 10) != fs) { snprintf(why, sizeof why, "%s sampling frequency is %s instead of %llu", tx ? "tx" : "rx", a ? a->val : "not set", (unsigned long long) fs); return why; }
    if (!tx || mode) { static const char *M[] = {"manual", "fast_attack", "slow_attack", "hybrid"}; a = fi_get(0, "voltage0", tx, "gain_control_mode"); if (!a || strcmp(a->val, M[mode])) { snprintf(why, sizeof why, "gain mode is %s instead of %s", a ? a->val : "not set", M[mode]); return why; } }
    if (mode == 0) { a = fi_get(0, "voltage0", tx, "hardwaregain"); if (!a || a->num != gain) { snprintf(why, sizeof why, "%s gain is %s instead of %g", tx ? "tx" : "rx", a ? a->val : "not set", gain); return why; } }
    if (tx) { a = fi_get(0, "altvoltage1", true, "powerdown"); if (!a || strcmp(a->val, "0")) return "the transmitter is not powered up"; static const char *D[] = {"TX1_I_F1", "TX1_Q_F1", "TX1_I_F2", "TX1_Q_F2"}; for (int i = 0; i < 4; i++) { a = fi_get(1, D[i], true, "raw"); if (!a || a->num != 0) return "a test tone is left on"; } }
    return NULL;
}
