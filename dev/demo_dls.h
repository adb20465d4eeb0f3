/* a small DLS collection: one instrument, one region, one articulation, nw waves */
typedef struct { unsigned char *b; int n; } DB;
static void d1(DB *d, int v) { d->b[d->n++] = (unsigned char)v; }
static void d2(DB *d, int v) { d1(d, v); d1(d, v >> 8); }
static void d4(DB *d, long v) { d2(d, (int)v); d2(d, (int)(v >> 16)); }
static void dt(DB *d, const char *t) { int i; for (i = 0; i < 4; i++) d1(d, t[i]); }
static int dopen(DB *d, const char *t) { dt(d, t); d4(d, 0); return d->n; }
static int dlist(DB *d, const char *t) { int p = dopen(d, "LIST"); dt(d, t); return p; }
static void dclose(DB *d, int p) { long s = d->n - p; int i; for (i = 0; i < 4; i++) d->b[p - 4 + i] = (unsigned char)(s >> (8 * i)); if (s & 1) d1(d, 0); }
typedef struct { int waves, samples, bits, rate, prog, cues, bank, regions; } DLSOPT;
static int dls_build(unsigned char *out, DLSOPT o) {
    DB D = { out, 0 }, *d = &D; int i, j, c, l, m, n, r, ofs[256], base, pt;
    int R = dopen(d, "RIFF"); dt(d, "DLS ");
    c = dopen(d, "colh"); d4(d, 1); dclose(d, c);
    l = dlist(d, "lins"); m = dlist(d, "ins ");
    c = dopen(d, "insh"); d4(d, o.regions); d4(d, o.bank); d4(d, o.prog); dclose(d, c);
    n = dlist(d, "lrgn");
    for (i = 0; i < o.regions; i++) {
    r = dlist(d, "rgn ");
    c = dopen(d, "rgnh"); d2(d, i * 128 / o.regions); d2(d, (i + 1) * 128 / o.regions - 1); d2(d, 0); d2(d, 127); d2(d, 0); d2(d, 0); d2(d, 0); dclose(d, c);
    c = dopen(d, "wsmp"); d4(d, 20); d2(d, 60); d2(d, 0); d4(d, 0); d4(d, 0); d4(d, 1); d4(d, 16); d4(d, 0); d4(d, 0); d4(d, o.samples - 8); dclose(d, c);
    c = dopen(d, "wlnk"); d2(d, 0); d2(d, 0); d4(d, 1); d4(d, i % o.cues); dclose(d, c);
    dclose(d, r); }
    dclose(d, n);
    n = dlist(d, "lart"); c = dopen(d, "art1"); d4(d, 8); d4(d, 1); d2(d, 0); d2(d, 0); d2(d, 0x20a); d2(d, 0); d4(d, 0); dclose(d, c); dclose(d, n);
    dclose(d, m); dclose(d, l);
    c = dopen(d, "ptbl"); d4(d, 8); d4(d, o.cues); pt = d->n; for (i = 0; i < o.cues; i++) d4(d, 0); dclose(d, c);
    l = dlist(d, "wvpl"); base = d->n;
    for (i = 0; i < o.waves; i++) {
        ofs[i] = d->n - base; m = dlist(d, "wave");
        c = dopen(d, "fmt "); d2(d, 1); d2(d, 1); d4(d, o.rate); d4(d, o.rate * o.bits / 8); d2(d, o.bits / 8); d2(d, o.bits); dclose(d, c);
        c = dopen(d, "data"); for (j = 0; j < o.samples * o.bits / 8; j++) d1(d, (j & 31) < 16 ? 0x60 : 0xa0); dclose(d, c);
        dclose(d, m);
    }
    dclose(d, l); c = dopen(d, "pad "); d4(d, 0); d4(d, 0); dclose(d, c); dclose(d, R);
    for (i = 0; i < o.cues; i++) for (j = 0; j < 4; j++) out[pt + 4 * i + j] = (unsigned char)(ofs[i % o.waves] >> (8 * j));
    return d->n;
}
