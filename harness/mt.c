/* Many threads on the client library.  Judges every answer itself and lets
 * ThreadSanitizer judge the accesses.
 * mt MODE THREADS ITERATIONS SEED DISPATCHERS -- library arguments
 * Prints "BAD key text" for everything wrong, "N name value" for counters and "END". */
#define _GNU_SOURCE
#include <opendax.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#include <stdint.h>
#include <stdatomic.h>
#include <sys/time.h>

static int NT, ITER, MODE, ND; static unsigned SEED; static char **AV; static int AC;
static dax_state *DS;
static _Atomic int nbad, stop, phase;
static _Atomic long nops, nfail, nev, nreconn, ncross;
static pthread_mutex_t pl=PTHREAD_MUTEX_INITIALIZER;
static void bad(const char *key, const char *fmt, ...) {
    va_list v;
    if(nbad++ > 20) return;
    pthread_mutex_lock(&pl); va_start(v, fmt); printf("BAD %s ", key); vprintf(fmt, v); printf("\n"); fflush(stdout); va_end(v); pthread_mutex_unlock(&pl);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec+t.tv_nsec/1e9; }
typedef struct { uint64_t s; } rng;
static unsigned rnd(rng *r, unsigned n) { r->s=r->s*6364136223846793005ULL+1442695040888963407ULL; return (unsigned)(r->s>>33) % n; }

#define MAXT 32
#define NUNI 4
#define UNILEN 300
static tag_handle uni[NUNI], counter, queue, own[MAXT], bits;
static _Atomic long added;
static _Atomic int lastfail;
/* queue tokens */
static _Atomic int pushed[MAXT*4096+4096]; static _Atomic int popped[MAXT*4096+4096];
/* events: one per thread plus shared ones */
typedef struct evt { int owner; int live; _Atomic int calls; _Atomic int freed; _Atomic unsigned last; _Atomic int running; tag_handle h; int kind; } evt;
static _Atomic unsigned wrote_lo[MAXT], wrote_hi[MAXT];
static _Atomic char seen[MAXT][1<<16];

static int ok(int r, const char *what) {
    nops++;
    if(r == 0) return 1;
    nfail++; lastfail=r;
    if(MODE == 0) bad("error", "%s returned %d", what, r);
    else if(r != ERR_DISCONNECTED && r != ERR_MSG_SEND && r != ERR_TIMEOUT && r != ERR_MSG_RECV) bad("error:odd", "%s returned %d while the connection went away", what, r);
    usleep(MODE == 2 ? 300 : 50);   /* give the connection a chance to come back */
    return 0;
}
/* data: [owner, sequence] of the owner's own tag */
static void event_cb(dax_state *ds, void *ud) {
    evt *e=ud; uint32_t d[2]={0xFFFFFFFF, 0}; int r;
    e->running++;
    if(e->freed) bad("event:freed", "callback with user data that has been freed");
    nev++; e->calls++;
    r=dax_event_get_data(ds, d, sizeof(d));
    if(r != 8) bad("event:data", "event data size %d", r);
    else if(d[0] != (uint32_t)e->owner) bad("event:mixed", "event of thread %d carries the data of thread %u", e->owner, d[0]);
    else if(d[1] > wrote_hi[e->owner]) bad("event:future", "event of thread %d carries %u, written up to %u", e->owner, d[1], wrote_hi[e->owner]);
    else if(e->kind == 0 && d[1] < (1<<16)) { if(seen[e->owner][d[1]]++) bad("event:twice", "write %u of thread %d notified twice", d[1], e->owner); }
    e->running--;
}
static void event_free(void *ud) { evt *e=ud; if(e->freed++) bad("event:freed", "user data freed twice"); }
static void *dispatcher(void *a) {
    int k=(intptr_t)a, r; dax_id id;
    while(!stop) {
        if(k % 2) { r=dax_event_poll(DS, &id); if(r == ERR_NOTFOUND) usleep(200); }
        else { double t0=now(); r=dax_event_wait(DS, 50, &id); if(r == ERR_TIMEOUT && now()-t0 < 0.045) bad("event:early", "wait of 50 ms ended after %f", now()-t0); if(now()-t0 > 20) bad("event:late", "wait of 50 ms took %f s", now()-t0); }
        if(r && r != ERR_TIMEOUT && r != ERR_NOTFOUND && r != ERR_GENERIC && r != ERR_DELETED) bad("event:result", "dispatch returned %d", r);
    }
    return NULL;
}
static void member_cb(cdt_iter m, void *u) { char *s=u; size_t l=strlen(s); if(l < 400) snprintf(s+l, 500-l, "%s/%x/%d/%d/%d ", m.name, m.type, m.count, m.byte, m.bit); }

static tag_type common_type; static char *COMMON="a/3/1/0/0 b/14/3/1/0 ";
static void *worker(void *a) {
    int me=(intptr_t)a, i, n, r; rng R={SEED*1000003ULL+me*7919+1}; char name[40]; unsigned char buf[8192], b2[8192], m[8192];
    tag_handle h, mine[6]; dax_tag t; uint32_t seq=0; int tok=0; evt *e; dax_id id; tag_group_id *g; int cnt[6]; char names[6][40]; int nm=0;
    unsigned char ref[64]; int known=0; dax_id evid; int have=0; evt *ev=NULL; tag_type ty; uint32_t pair[2];
    for(i=0;i<20;i++) rnd(&R, 2);
    for(i=0;i<ITER;i++) {
        int k=rnd(&R, MODE == 0 ? 21 : 12);
        switch(k) {
        case 0: case 1: /* my own data comes back */
            if(!known || rnd(&R, 2)) {
                for(n=0;n<64;n++) b2[n]=rnd(&R, 256);
                memcpy(buf, b2, 64);
                if(ok(dax_tag_write(DS, own[me], buf), "dax_tag_write")) { memcpy(ref, b2, 64); known=1; } else known=0;
            }
            if(known) { memset(buf, 0xEE, 80); if(ok(dax_tag_read(DS, own[me], buf), "dax_tag_read")) {
                if(memcmp(buf, ref, 64)) bad("own-data", "thread %d read something else than it wrote", me);
                if(buf[64] != 0xEE) bad("overrun", "read wrote beyond the buffer"); } }
            break;
        case 2: case 3: /* everybody writes uniform blocks: no read is torn */
            n=rnd(&R, NUNI);
            if(rnd(&R, 3) == 0) { memset(buf, 1+me*7+rnd(&R, 7), UNILEN); ok(dax_tag_write(DS, uni[n], buf), "dax_tag_write"); }
            else { memset(buf, 0xEE, UNILEN); if(ok(dax_tag_read(DS, uni[n], buf), "dax_tag_read")) for(r=1;r<UNILEN;r++) if(buf[r] != buf[0]) { bad("torn", "block reads %d at 0 and %d at %d", buf[0], buf[r], r); break; } }
            break;
        case 4: { uint32_t one=1; if(ok(dax_atomic_op(DS, counter, &one, ATOMIC_OP_INC), "dax_atomic_op")) added++; break; }
        case 5: if(MODE != 0) break;
            if(rnd(&R, 2) && tok < 4000) { uint32_t v=me*4096+tok++; if(ok(dax_tag_write(DS, queue, &v), "queue write")) pushed[v]=1; }
            else { uint32_t v=0; r=dax_tag_read(DS, queue, &v); nops++; if(r == 0) { if(v >= (unsigned)NT*4096) bad("queue", "popped %u", v); else { if((int)(v/4096) != me) ncross++; if(popped[v]++) bad("queue", "item %u popped twice", v); } } else if(r != ERR_EMPTY) bad("queue", "queue read returned %d", r); }
            break;
        case 6: /* look things up */
            n=rnd(&R, NT); sprintf(name, "own%d", n);
            if(rnd(&R, 2)) { if(ok(dax_tag_byname(DS, &t, name), "dax_tag_byname") && (strcmp(t.name, name) || t.idx != own[n].index || t.type != DAX_BYTE || t.count != 64)) bad("lookup", "asked for %s, got %s index %d type %x count %d", name, t.name, t.idx, t.type, t.count); }
            else if(ok(dax_tag_byindex(DS, &t, own[n].index), "dax_tag_byindex") && (strcmp(t.name, name) || t.idx != own[n].index || t.type != DAX_BYTE || t.count != 64)) bad("lookup", "asked for %d, got %s index %d type %x count %d", own[n].index, t.name, t.idx, t.type, t.count);
            break;
        case 7: /* handles */
            n=rnd(&R, NT); r=rnd(&R, 64); sprintf(name, "own%d[%d]", n, r);
            if(ok(dax_tag_handle(DS, &h, name, 1), "dax_tag_handle") && (h.index != own[n].index || h.byte != (unsigned)r || h.size != 1 || h.count != 1)) bad("handle", "%s resolved to %d:%d", name, h.index, h.byte);
            break;
        case 8: { /* one of my bits among everybody's */
            int v=rnd(&R, 2); h=bits; h.byte=me/8; h.bit=me % 8; h.count=1; h.size=1; buf[0]=v;
            if(ok(dax_tag_write(DS, h, buf), "bit write") && ok((buf[0]=0x55, dax_tag_read(DS, h, buf)), "bit read") && (buf[0] & 1) != v) bad("bit", "bit of thread %d reads %d after %d", me, buf[0], v);
            break; }
        case 9: case 10: /* my event source */
            seq++; pair[0]=me; pair[1]=seq; wrote_hi[me]=seq; sprintf(name, "ev%d", me);
            if(ok(dax_tag_handle(DS, &h, name, 0), "dax_tag_handle")) ok(dax_tag_write(DS, h, pair), "event source write");
            break;
        case 11: ty=dax_string_to_type(DS, "Common"); nops++;
            if(ty == 0 && MODE) break;
            if(ty != common_type) { bad("type", "Common is %x", ty); break; }
            strcpy((char *)buf, ""); r=dax_cdt_iter(DS, ty, buf, member_cb);
            if(r && MODE) break;
            if(r || strcmp((char *)buf, COMMON)) bad("type", "Common iterates as %s (%d)", (char *)buf, r);
            r=dax_get_typesize(DS, ty); if(r != 7 && !MODE) bad("type", "Common has %d bytes", r);
            { const char *s=dax_type_to_string(DS, ty); if(!(MODE && !s) && (!s || strcmp(s, "Common"))) bad("type", "Common is called %s", s ? s : "-"); }
            break;
        /* MODE 0 only from here on */
        case 12: /* tags come and go */
            if(nm < 6 && rnd(&R, 3)) { sprintf(names[nm], "tmp%d_%d", me, i); cnt[nm]=1+rnd(&R, 9); if(ok(dax_tag_add(DS, &mine[nm], names[nm], DAX_DINT, cnt[nm], 0), "dax_tag_add")) { if(mine[nm].count != (unsigned)cnt[nm] || mine[nm].size != 4u*cnt[nm]) bad("add", "handle of a new tag is wrong"); nm++; } }
            else if(nm) { nm--; if(ok(dax_tag_del(DS, mine[nm].index), "dax_tag_del")) { r=dax_tag_byname(DS, &t, names[nm]); if(r == 0) bad("deleted", "deleted tag %s still found", names[nm]); } }
            for(n=0;n<nm;n++) if(ok(dax_tag_byname(DS, &t, names[n]), "dax_tag_byname") && (t.idx != mine[n].index || t.count != (unsigned)cnt[n] || strcmp(t.name, names[n]))) bad("lookup", "tag %s is %d, not %d", names[n], t.idx, mine[n].index);
            break;
        case 13: /* a group of own data and shared blocks */
            { tag_handle hs[3]={own[me], uni[rnd(&R, NUNI)], own[me]}; g=dax_group_add(DS, &r, hs, 3, 0); nops++;
            if(g == NULL || r) { if(r != ERR_2BIG) bad("group", "dax_group_add returned %d", r); break; }
            memset(buf, 0xEE, 64*2+UNILEN+16);
            if(dax_group_get_size(g) != 128+UNILEN) bad("group", "size %d", dax_group_get_size(g));
            if(ok(dax_group_read(DS, g, buf, 128+UNILEN), "dax_group_read")) {
                if(known && (memcmp(buf, ref, 64) || memcmp(buf+64+UNILEN, ref, 64))) bad("group", "group read of own data is wrong");
                for(n=1;n<UNILEN;n++) if(buf[64+n] != buf[64]) { bad("torn", "block in a group is torn"); break; }
                if(buf[128+UNILEN] != 0xEE) bad("overrun", "group read wrote beyond the buffer"); }
            if(rnd(&R, 2)) { for(n=0;n<64;n++) b2[n]=rnd(&R, 256); memset(buf, 1+me, 128+UNILEN); memcpy(buf, b2, 64); memcpy(buf+64+UNILEN, b2, 64); if(ok(dax_group_write(DS, g, buf), "dax_group_write")) { memcpy(ref, b2, 64); known=1; } }
            ok(dax_group_del(DS, g), "dax_group_del"); break; }
        case 14: /* overrides on my own tag */
            if(!known) break;
            memset(b2, 0x11+me, 64);
            if(ok(dax_tag_add_override(DS, own[me], memcpy(m, b2, 64)), "add override") && ok(dax_tag_set_override(DS, own[me]), "set override") && ok(dax_tag_read(DS, own[me], buf), "read")) if(memcmp(buf, b2, 64)) bad("override", "override not seen");
            if(ok(dax_tag_get_override(DS, own[me], buf, m), "get override")) for(n=0;n<64;n++) if(m[n] != 0xFF || buf[n] != ref[n]) { bad("override", "override query is wrong at %d: mask %x value %x", n, m[n], buf[n]); break; }
            ok(dax_tag_clr_override(DS, own[me]), "clear override"); ok(dax_tag_del_override(DS, own[me]), "delete override");
            break;
        case 15: { tag_handle s=own[me], d=own[me], gs, gd; s.count=s.size=4; d.byte=32; d.count=d.size=4; s.byte=8;
            if(!ok(dax_map_add(DS, &s, &d, &id), "dax_map_add")) break;
            if(ok(dax_map_get(DS, &gs, &gd, id), "dax_map_get") && (gs.index != s.index || gs.byte != 8 || gd.byte != 32 || gs.size != 4 || gd.count != 4)) bad("map", "mapping reads back differently");
            ok(dax_map_del(DS, id), "dax_map_del"); if(dax_map_get(DS, &gs, &gd, id) == 0) bad("map", "deleted mapping still there"); known=0; break; }
        case 16: if(have) { /* take my event away */
                if(ok(dax_event_del(DS, evid), "dax_event_del") && !ev->freed) bad("event:free", "removal did not free the user data"); have=0; }
            else { sprintf(name, "ev%d", me); e=calloc(1, sizeof(*e)); e->owner=me; e->kind=1; ev=e;
                if(ok(dax_tag_handle(DS, &h, name, 0), "dax_tag_handle") && ok(dax_event_add(DS, &h, EVENT_WRITE, NULL, &evid, event_cb, e, event_free), "dax_event_add")) { ok(dax_event_options(DS, evid, EVENT_OPT_SEND_DATA), "dax_event_options"); have=1; } }
            break;
        case 17: { dax_cdt *c; int er; tag_type nt; sprintf(name, "T%d_%d", me, (int)rnd(&R, 12)); /* types of mine, again and again */
            c=dax_cdt_new(name, &er); if(!c) { bad("cdt", "dax_cdt_new %d", er); break; }
            ok(dax_cdt_member(DS, c, "x", DAX_INT, 1+me), "dax_cdt_member"); ok(dax_cdt_member(DS, c, "y", common_type, 2), "dax_cdt_member");
            r=dax_cdt_create(DS, c, &nt); nops++;
            if(r) { bad("cdt", "dax_cdt_create returned %d", r); break; }
            if(dax_string_to_type(DS, name) != nt) bad("cdt", "%s is %x, not %x", name, dax_string_to_type(DS, name), nt);
            r=dax_get_typesize(DS, nt); if(r != 2*(1+me)+14) bad("cdt", "%s has %d bytes", name, r);
            break; }
        case 18: { /* more than one message, only mine */
            sprintf(name, "big%d", me); if(!ok(dax_tag_handle(DS, &h, name, 0), "dax_tag_handle")) break;
            n=1+rnd(&R, 250); memset(b2, n, h.size); memcpy(buf, b2, h.size);
            if(ok(dax_tag_write(DS, h, buf), "big write")) { memset(buf, 0, h.size); if(ok(dax_tag_read(DS, h, buf), "big read") && memcmp(buf, b2, h.size)) bad("own-data", "big block of thread %d differs", me); }
            break; }
        case 19: { char *s; h=own[rnd(&R, NT)]; h.byte=3; h.count=h.size=1; s=dax_fqn(DS, h); sprintf(name, "own"); if(!s || strncmp(s, name, 3) || !strstr(s, "[3]")) bad("fqn", "fqn is %s", s ? s : "-"); free(s); nops++; break; }
        case 20: { int32_t v=i; h=own[me]; h.byte=4; h.count=h.size=4; memset(m, 0, 8); m[1]=0xF0; memset(buf, 0xA5, 8);
            if(known && ok(dax_mask(DS, own[me].index, 4, buf, m, 4), "dax_mask")) ref[5]=(ref[5] & 0x0F) | 0xA0; else known=0; (void)v; break; }
        }
        if(stop && MODE) break;
        if(MODE == 3 && nfail > 200*NT) break;
    }
    if(have) dax_event_del(DS, evid);
    return NULL;
}
static void setup(dax_state *ds) {
    int i; char name[32]; dax_cdt *c; int er; tag_handle h;
    for(i=0;i<NUNI;i++) { sprintf(name, "uni%d", i); if(dax_tag_add(ds, &uni[i], name, DAX_BYTE, UNILEN, 0)) bad("setup", "tag"); }
    if(dax_tag_add(ds, &counter, "counter", DAX_UDINT, 1, 0) || dax_tag_add(ds, &queue, "queue", DAX_UDINT|DAX_QUEUE, 1, 0) || dax_tag_add(ds, &bits, "bits", DAX_BOOL, MAXT, 0)) bad("setup", "tag");
    for(i=0;i<NT;i++) {
        sprintf(name, "own%d", i); if(dax_tag_add(ds, &own[i], name, DAX_BYTE, 64, 0)) bad("setup", "tag");
        sprintf(name, "ev%d", i); if(dax_tag_add(ds, &h, name, DAX_UDINT, 2, 0)) bad("setup", "tag");
        sprintf(name, "big%d", i); if(dax_tag_add(ds, &h, name, DAX_BYTE, 6000, 0)) bad("setup", "tag");
    }
    c=dax_cdt_new("Common", &er); dax_cdt_member(ds, c, "a", DAX_BOOL, 1); dax_cdt_member(ds, c, "b", DAX_BOOL, 3);
    dax_cdt_free(c); c=dax_cdt_new("Common", &er);
    dax_cdt_member(ds, c, "a", DAX_BYTE, 1); dax_cdt_member(ds, c, "b", DAX_INT, 3);
    if(dax_cdt_create(ds, c, &common_type)) bad("setup", "type");
}
static dax_state *start(const char *name) {
    dax_state *ds=dax_init(name); int r;
    if(!ds) { bad("init", "dax_init"); exit(3); }
    dax_init_config(ds, (char *)name);
    r=dax_configure(ds, AC, AV, CFG_CMDLINE);
    if(r) bad("configure", "dax_configure returned %d", r);
    return ds;
}
/* separate connections that come and go, each checking its own data */
static pthread_mutex_t cfg=PTHREAD_MUTEX_INITIALIZER;
static void *churn(void *a) {
    int me=(intptr_t)a, i, j, r; rng R={SEED*77777ULL+me*31+5}; char name[32]; tag_handle h, o; dax_id id; evt *e; unsigned char buf[64];
    for(i=0;i<20;i++) rnd(&R, 2);
    for(i=0;i<ITER;i++) {
        dax_state *ds; sprintf(name, "churn%d", me);
        pthread_mutex_lock(&cfg); ds=start("churn"); pthread_mutex_unlock(&cfg);   /* configuration parses the command line, which is the program's */
        if((r=dax_connect(ds))) { bad("connect", "dax_connect returned %d", r); return NULL; }
        if((r=dax_tag_handle(ds, &o, "counter", 0))) bad("churn", "handle %d", r);
        sprintf(name, "churn%d", me); if((r=dax_tag_add(ds, &h, name, DAX_UDINT, 2, 0))) bad("churn", "add %d", r);
        e=calloc(1, sizeof(*e)); e->owner=me; e->kind=1;
        if((r=dax_event_add(ds, &h, EVENT_WRITE, NULL, &id, event_cb, e, event_free))) bad("churn", "event %d", r);
        dax_event_options(ds, id, EVENT_OPT_SEND_DATA);
        for(j=0;j<(int)rnd(&R, 12);j++) {
            uint32_t one=1, p[2]={me, (uint32_t)j};
            if((r=dax_atomic_op(ds, o, &one, ATOMIC_OP_INC))) bad("churn", "atomic %d", r); else added++;
            wrote_hi[me]=100000; if((r=dax_tag_write(ds, h, p))) bad("churn", "write %d", r);
            if(rnd(&R, 2)) dax_event_wait(ds, 2000, NULL);
            memset(buf, 0, 8); if((r=dax_tag_read(ds, h, buf)) || memcmp(buf, p, 8)) bad("churn", "own data differs (%d)", r);
            nops+=3;
        }
        switch(rnd(&R, 4)) {
            case 0: break;                       /* freed while connected */
            case 1: if((r=dax_disconnect(ds))) bad("churn", "disconnect %d", r); break;
            case 2: if((r=dax_disconnect(ds))) bad("churn", "disconnect %d", r);
                    if(dax_tag_read(ds, h, buf) == 0) bad("churn", "read without a connection");
                    if((r=dax_connect(ds))) bad("churn", "reconnect %d", r); else if((r=dax_tag_read(ds, h, buf))) bad("churn", "read after reconnect %d", r); nreconn++; break;
            case 3: if((r=dax_connect(ds))) bad("churn", "second connect %d", r); else if((r=dax_tag_read(ds, h, buf))) bad("churn", "read after second connect %d", r); nreconn++; break;
        }
        pthread_mutex_lock(&cfg); dax_free_config(ds); pthread_mutex_unlock(&cfg);
        dax_free(ds);
        nreconn++;
    }
    return NULL;
}
static _Atomic int lost; static void lost_cb(int r) { lost++; }
int main(int argc, char **argv) {
    pthread_t th[MAXT*2]; int i, n=0, r; uint32_t v; evt *e[MAXT]; dax_id ids[MAXT]; tag_handle h; char name[32]; dax_state *chk;
    MODE=atoi(argv[1]); NT=atoi(argv[2]); ITER=atoi(argv[3]); SEED=atoi(argv[4]); ND=atoi(argv[5]);
    for(i=6;i<argc && strcmp(argv[i], "--");i++) ;
    argv[i]=argv[0]; AV=&argv[i]; AC=argc-i;
    setvbuf(stdout, NULL, _IOLBF, 0);
    if(MODE == 1) {
        DS=start("boot"); if((r=dax_connect(DS))) { bad("connect", "%d", r); printf("END\n"); return 0; }
        setup(DS); v=0; dax_tag_write(DS, counter, &v);
        for(i=0;i<NT;i++) pthread_create(&th[i], NULL, churn, (void *)(intptr_t)i);
        for(i=0;i<NT;i++) pthread_join(th[i], NULL);
        v=0; if(dax_tag_read(DS, counter, &v) || v != (uint32_t)added) bad("counter", "counter is %u after %ld increments", v, (long)added);
        dax_disconnect(DS); dax_free(DS);
        printf("N operations %ld\nN connections %ld\nN callbacks %ld\nEND\n", nops, nreconn, nev); return 0;
    }
    DS=start("mt"); dax_set_disconnect_callback(DS, lost_cb);
    if((r=dax_connect(DS))) { bad("connect", "%d", r); printf("END\n"); return 0; }
    setup(DS); v=0; dax_tag_write(DS, counter, &v);
    for(i=0;i<NT && MODE == 0;i++) {
        e[i]=calloc(1, sizeof(evt)); e[i]->owner=i; sprintf(name, "ev%d", i);
        if(dax_tag_handle(DS, &h, name, 0) || dax_event_add(DS, &h, EVENT_WRITE, NULL, &ids[i], event_cb, e[i], event_free) || dax_event_options(DS, ids[i], EVENT_OPT_SEND_DATA)) bad("setup", "event");
    }
    for(i=0;i<NT;i++) pthread_create(&th[n++], NULL, worker, (void *)(intptr_t)i);
    for(i=0;i<ND;i++) pthread_create(&th[n++], NULL, dispatcher, (void *)(intptr_t)i);
    if(MODE == 2) {  /* the shared connection is closed and opened under the workers */
        for(i=0;i<12;i++) { usleep(20000+1000*(i*7 % 11)); if(i % 3 != 2) dax_disconnect(DS); if((r=dax_connect(DS))) bad("connect", "reconnect returned %d", r); nreconn++; }
        stop=1;
    }
    if(MODE == 3) { usleep(150000); printf("KILL\n"); fflush(stdout); getchar(); }   /* the driver kills the server now */
    double t0=now();
    for(i=0;i<NT;i++) pthread_join(th[i], NULL);
    if(MODE == 3) { if(now()-t0 > 60) bad("stuck", "threads took %f s to notice that the server is gone", now()-t0);
        usleep(300000); if(lost != 1) bad("lost", "the disconnect callback ran %d times", lost); }
    stop=1;
    for(i=NT;i<n;i++) pthread_join(th[i], NULL);
    if(MODE == 0 || MODE == 2) {
        chk=DS;
        v=0; r=dax_tag_read(chk, counter, &v);
        if(r || (MODE == 0 && v != (uint32_t)added) || v < (uint32_t)added) bad("counter", "counter is %u after %ld increments (%d)", v, (long)added, r);
    }
    if(MODE == 0) {
        while((r=dax_tag_read(DS, queue, &v)) == 0) { if(v >= (unsigned)NT*4096 || popped[v]++) bad("queue", "item %u popped twice or never pushed", v); }
        if(r != ERR_EMPTY) bad("queue", "drain returned %d", r);
        for(i=0;i<NT*4096;i++) if(pushed[i] != popped[i]) { bad("queue", "item %d pushed %d times and popped %d times", i, pushed[i], popped[i]); break; }
        while(dax_event_poll(DS, NULL) == 0) ;
        for(i=0;i<NT;i++) { if(ND && !e[i]->calls && wrote_hi[i] > 20) bad("event:none", "no event of thread %d was ever dispatched", i); dax_event_del(DS, ids[i]); if(!e[i]->freed) bad("event:free", "not freed"); }
        if(lost) bad("lost", "disconnect callback without a loss");
    }
    if(MODE != 3) { if((r=dax_disconnect(DS))) bad("disconnect", "%d", r); if(MODE == 0 && lost) bad("lost", "disconnect callback on a regular disconnect"); }
    dax_free_config(DS); dax_free(DS);
    printf("N operations %ld\nN failed %ld\nN callbacks %ld\nN reconnects %ld\nN increments %ld\nN cross_thread_items %ld\nEND\n", (long)nops, (long)nfail, (long)nev, (long)nreconn, (long)added, (long)ncross);
    return nbad != 0;
}
