/* shared by the demonstrations: in-memory files and small helpers */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "eas.h"
#include "eas_reverb.h"
typedef struct { const unsigned char *p; int n; } MEMF;
static int mf_read(void *h, void *buf, int off, int size) {
    MEMF *m = h; int k = m->n - off;
    if (k < 0) k = 0;
    if (k > size) k = size;
    memcpy(buf, m->p + off, k);
    return k;
}
static int mf_size(void *h) { return ((MEMF *)h)->n; }
static EAS_FILE mk_file(MEMF *m) { EAS_FILE f; memset(&f, 0, sizeof f); f.handle = m; f.readAt = mf_read; f.size = mf_size; return f; }
static EAS_PCM pcm[4096];
#define NR ((EAS_I32)EAS_Config()->mixBufferSize)
static int smf_build(unsigned char *o, const unsigned char *trk, int n, int div) {
    static const unsigned char eot[] = {0, 0xff, 0x2f, 0};
    unsigned char h[] = {'M','T','h','d',0,0,0,6,0,0,0,1,(unsigned char)(div>>8),(unsigned char)div,'M','T','r','k',0,0,0,0};
    int t = n + 4;
    h[20] = t >> 8; h[21] = t & 255;
    memcpy(o, h, 22); memcpy(o + 22, trk, n); memcpy(o + 22 + n, eot, 4);
    return 22 + t;
}
#define CHECK(c) do { if (!(c)) { printf("FAIL line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
