/* Line driven front end to libdax: one API call per input line, one result line per call.
 * All data buffers handed to the library are heap blocks of exactly the size the API
 * documents, so that the address sanitizer sees any access beyond them. */
#include <opendax.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/socket.h>

/* results go to the descriptor that was stdout; the library logs to stdout */
static FILE *out;
#define printf(...) fprintf(out, __VA_ARGS__)
#undef putchar
#define putchar(c) fputc(c, out)

static dax_state *ds;
static char *line; static size_t linecap;

static int hexval(int c){ if(c>='0'&&c<='9')return c-'0'; if(c>='a'&&c<='f')return c-'a'+10; if(c>='A'&&c<='F')return c-'A'+10; return -1; }
/* "-" = NULL, "." = empty */
static unsigned char *unhex(const char *s, size_t *len){
    if(s==NULL || !strcmp(s,"-")){ *len=0; return NULL; }
    if(!strcmp(s,".")){ *len=0; return malloc(1); }
    size_t n=strlen(s)/2; unsigned char *b=malloc(n?n:1);
    for(size_t i=0;i<n;i++) b[i]=hexval(s[2*i])*16+hexval(s[2*i+1]);
    *len=n; return b;
}
static char *unhexs(const char *s){ size_t n; unsigned char *b=unhex(s,&n); if(!b) return NULL; char *r=malloc(n+1); memcpy(r,b,n); r[n]=0; free(b); return r; }
static void phex(const void *p, size_t n){ const unsigned char *b=p; if(n==0){ putchar('.'); return; } for(size_t i=0;i<n;i++) printf("%02x",b[i]); }
static char *tok(void){ return strtok(NULL," \n"); }
static long long itok(void){ char *t=tok(); return t?strtoll(t,NULL,0):0; }
static tag_handle htok(void){ tag_handle h; memset(&h,0,sizeof h); char *t=tok(); if(!t) return h;
    unsigned bit; sscanf(t,"%d:%u:%u:%u:%u:%u",&h.index,&h.byte,&bit,&h.count,&h.size,&h.type); h.bit=bit; return h; }
static void phandle(tag_handle h){ printf("%d:%u:%u:%u:%u:%u",h.index,h.byte,h.bit,h.count,h.size,h.type); }
static void ptag(dax_tag *t){ printf("%d %u %u %u ",t->idx,t->type,t->count,t->attr); phex(t->name,strlen(t->name)); }

#define MAXG 8192
static tag_group_id *groups[MAXG];
/* event callbacks append to this log */
typedef struct { int tag; int freed; } ud_t;
static struct { int tag; int dlen; unsigned char data[4096]; int dres; } evlog[4096]; static int evn;
static int freelog[4096]; static int fren;
static int want_data, nest, nest_res;
static void cb(dax_state *d, void *u){
    if(evn<4096){ evlog[evn].tag=((ud_t*)u)->tag; evlog[evn].dlen=-1;
        if(want_data>0){ unsigned char *b=malloc(want_data); memset(b,0xEE,want_data); int r=dax_event_get_data(d,b,want_data); evlog[evn].dres=r; evlog[evn].dlen=want_data; memcpy(evlog[evn].data,b,want_data); free(b);} 
        evn++;
        if(nest>0){ /* another event is handled inside of this one; afterwards the data of this one is still there */
            int me=evn-1, len=want_data; nest--; nest_res=dax_event_poll(d,NULL);
            if(len>0){ unsigned char *b=malloc(len); memset(b,0xEE,len); int r=dax_event_get_data(d,b,len); if(r!=evlog[me].dres || memcmp(b,evlog[me].data,len)) evlog[me].dres=-777; free(b); } } } }
static void fcb(void *u){ if(fren<4096) freelog[fren++]=((ud_t*)u)->tag; free(u); }
static int disc=0;
static void disc_cb(int r){ disc=r; }
static void iter_cb(cdt_iter m, void *u){ (void)u; printf(" %s/%u/%d/%d/%d",m.name,m.type,m.count,m.byte,m.bit); }
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec/1e9; }

int main(int argc,char **argv){
    (void)argc; (void)argv;
    out=fdopen(dup(1),"w"); setvbuf(out,NULL,_IOFBF,1<<16); dup2(2,1); setvbuf(stdout,NULL,_IOLBF,4096);
    while(getline(&line,&linecap,stdin)>0){
        char *c=strtok(line," \n"); if(!c) continue;
        size_t n,m; int r;
        if(!strcmp(c,"init")){ /* init NAME args... */
            char *name=tok(); static char *av[64]; int ac=0; av[ac++]=strdup(name); char *t; while((t=tok())&&ac<63) av[ac++]=strdup(t); av[ac]=NULL;
            ds=dax_init(name); dax_init_logger(strdup(name),0); r=dax_configure(ds,ac,av,CFG_CMDLINE); dax_set_disconnect_callback(ds,disc_cb);
            printf("%d",r);
        } else if(!strcmp(c,"connect")){ printf("%d",dax_connect(ds));
        } else if(!strcmp(c,"disconnect")){ printf("%d",dax_disconnect(ds));
        } else if(!strcmp(c,"free")){ printf("%d",dax_free(ds)); ds=NULL;
        } else if(!strcmp(c,"getattr")){ char *nm=unhexs(tok()); char *v=dax_get_attr(ds,nm); if(v) phex(v,strlen(v)); else putchar('-'); free(nm);
        } else if(!strcmp(c,"disc")){ printf("%d",disc);
        } else if(!strcmp(c,"disc0")){ disc=0; printf("0");
        } else if(!strcmp(c,"tag_add")){ char *nm=unhexs(tok()); unsigned type=itok(); int count=itok(); unsigned attr=itok(); tag_handle h; memset(&h,0xEE,sizeof h); char *nul=tok(); r=dax_tag_add(ds,nul?NULL:&h,nm,type,count,attr); printf("%d ",r); phandle(h); free(nm);
        } else if(!strcmp(c,"tag_del")){ printf("%d",dax_tag_del(ds,itok()));
        } else if(!strcmp(c,"byname")){ char *nm=unhexs(tok()); dax_tag *t=calloc(1,sizeof *t); r=dax_tag_byname(ds,t,nm); printf("%d ",r); if(!r) ptag(t); free(t); free(nm);
        } else if(!strcmp(c,"byindex")){ dax_tag *t=calloc(1,sizeof *t); r=dax_tag_byindex(ds,t,itok()); printf("%d ",r); if(!r) ptag(t); free(t);
        } else if(!strcmp(c,"handle")){ char *nm=unhexs(tok()); int count=itok(); tag_handle h; memset(&h,0xEE,sizeof h); r=dax_tag_handle(ds,&h,nm,count); printf("%d ",r); phandle(h); free(nm);
        } else if(!strcmp(c,"fqn")){ tag_handle h=htok(); char *s=dax_fqn(ds,h); if(s){ phex(s,strlen(s)); free(s);} else putchar('-');
        } else if(!strcmp(c,"read")){ int idx=itok(); unsigned off=itok(); n=itok(); unsigned char *b=malloc(n?n:1); memset(b,0xEE,n); r=dax_read(ds,idx,off,b,n); printf("%d ",r); phex(b,n); free(b);
        } else if(!strcmp(c,"write")){ int idx=itok(); unsigned off=itok(); unsigned char *b=unhex(tok(),&n); r=dax_write(ds,idx,off,b,n); printf("%d",r); free(b);
        } else if(!strcmp(c,"mask")){ int idx=itok(); unsigned off=itok(); unsigned char *b=unhex(tok(),&n),*k=unhex(tok(),&m); r=dax_mask(ds,idx,off,b,k,n); printf("%d",r); free(b); free(k);
        } else if(!strcmp(c,"tread")){ tag_handle h=htok(); n=h.size; unsigned char *b=malloc(n?n:1); memset(b,0xEE,n); r=dax_tag_read(ds,h,b); printf("%d ",r); phex(b,n); free(b);
        } else if(!strcmp(c,"twrite")){ tag_handle h=htok(); unsigned char *b=unhex(tok(),&n); r=dax_tag_write(ds,h,b); printf("%d",r); free(b);
        } else if(!strcmp(c,"tmask")){ tag_handle h=htok(); unsigned char *b=unhex(tok(),&n),*k=unhex(tok(),&m); r=dax_tag_mask(ds,h,b,k); printf("%d",r); free(b); free(k);
        } else if(!strcmp(c,"ovr_add")){ tag_handle h=htok(); unsigned char *b=unhex(tok(),&n); printf("%d",dax_tag_add_override(ds,h,b)); free(b);
        } else if(!strcmp(c,"ovr_del")){ printf("%d",dax_tag_del_override(ds,htok()));
        } else if(!strcmp(c,"ovr_get")){ tag_handle h=htok(); n=h.size; unsigned char *b=malloc(n?n:1),*k=malloc(n?n:1); memset(b,0xEE,n); memset(k,0xEE,n); r=dax_tag_get_override(ds,h,b,k); printf("%d ",r); phex(b,n); putchar(' '); phex(k,n); free(b); free(k);
        } else if(!strcmp(c,"ovr_set")){ printf("%d",dax_tag_set_override(ds,htok()));
        } else if(!strcmp(c,"ovr_clr")){ printf("%d",dax_tag_clr_override(ds,htok()));
        } else if(!strcmp(c,"atomic")){ tag_handle h=htok(); int op=itok(); unsigned char *b=unhex(tok(),&n); printf("%d",dax_atomic_op(ds,h,b,op)); free(b);
        } else if(!strcmp(c,"ev_add")){ /* ev_add handle type udtag hexdata */
            tag_handle h=htok(); int t=itok(); int udt=itok(); unsigned char *b=unhex(tok(),&n); dax_id id={-1,-1}; ud_t *u=malloc(sizeof *u); u->tag=udt; u->freed=0; char *nul=tok(); r=dax_event_add(ds,&h,t,b,nul?NULL:&id,cb,u,fcb); if(r) free(u); printf("%d %d:%d",r,id.index,id.id); free(b);
        } else if(!strcmp(c,"ev_del")){ dax_id id={0,0}; char *t=tok(); sscanf(t,"%d:%d",&id.index,&id.id); printf("%d",dax_event_del(ds,id));
        } else if(!strcmp(c,"ev_opt")){ dax_id id={0,0}; char *t=tok(); sscanf(t,"%d:%d",&id.index,&id.id); unsigned o=itok(); printf("%d",dax_event_options(ds,id,o));
        } else if(!strcmp(c,"ev_wait")||!strcmp(c,"ev_poll")){ /* ev_wait timeout wantdata ; ev_poll wantdata */
            dax_id id={-1,-1}; int to=0; if(c[3]=='w') to=itok(); want_data=itok(); char *nul=tok(); nest=0; nest_res=0; if(nul && !strcmp(nul,"nest")){ nest=1; nul=NULL; } evn=0; fren=0; double t0=now();
            r=(c[3]=='w')?dax_event_wait(ds,to,nul?NULL:&id):dax_event_poll(ds,nul?NULL:&id);
            printf("%d %d:%d %.3f %d",r,id.index,id.id,now()-t0,evn);
            for(int i=0;i<evn;i++){ printf(" %d/",evlog[i].tag); if(evlog[i].dlen>=0){ printf("%d/",evlog[i].dres); phex(evlog[i].data,evlog[i].dlen);} else printf("-"); }
            unsigned char *b=malloc(16); r=dax_event_get_data(ds,b,16); free(b); printf(" nest=%d after=%d",nest_res,r);
        } else if(!strcmp(c,"freed")){ printf("%d",fren); for(int i=0;i<fren;i++) printf(" %d",freelog[i]); fren=0;
        } else if(!strcmp(c,"cdt")){ /* cdt NAMEHEX n (namehex type count)... */
            char *nm=unhexs(tok()); int k=itok(); int err=0; dax_cdt *cd=dax_cdt_new(nm,&err); printf("%d",err);
            if(cd){ int bad=0; for(int i=0;i<k;i++){ char *mn=unhexs(tok()); unsigned ty=itok(); unsigned ct=itok(); r=dax_cdt_member(ds,cd,mn,ty,ct); printf(" %d",r); if(r) bad=1; free(mn);} 
                if(!bad){ tag_type ty=0; char *nul=tok(); r=dax_cdt_create(ds,cd,nul?NULL:&ty); printf(" %d %u",r,ty); if(r) dax_cdt_free(cd);} else { dax_cdt_free(cd); printf(" -99 0"); } }
            free(nm);
        } else if(!strcmp(c,"cdt_iter")){ unsigned ty=itok(); r=0; printf("="); r=dax_cdt_iter(ds,ty,NULL,iter_cb); printf(" = %d",r);
        } else if(!strcmp(c,"cdt_count")){ printf("%d",dax_cdt_member_count(ds,itok()));
        } else if(!strcmp(c,"typesize")){ printf("%d",dax_get_typesize(ds,itok()));
        } else if(!strcmp(c,"s2t")){ char *s=unhexs(tok()); printf("%u",dax_string_to_type(ds,s)); free(s);
        } else if(!strcmp(c,"t2s")){ const char *s=dax_type_to_string(ds,itok()); if(s) phex(s,strlen(s)); else putchar('-');
        } else if(!strcmp(c,"map_add")){ tag_handle a=htok(),b=htok(); dax_id id={-1,-1}; char *nul=tok(); r=dax_map_add(ds,&a,&b,nul?NULL:&id); printf("%d %d:%d",r,id.index,id.id);
        } else if(!strcmp(c,"map_get")){ dax_id id={0,0}; char *t=tok(); sscanf(t,"%d:%d",&id.index,&id.id); tag_handle a,b; memset(&a,0,sizeof a); memset(&b,0,sizeof b); r=dax_map_get(ds,&a,&b,id); printf("%d ",r); phandle(a); putchar(' '); phandle(b);
        } else if(!strcmp(c,"map_del")){ dax_id id={0,0}; char *t=tok(); sscanf(t,"%d:%d",&id.index,&id.id); printf("%d",dax_map_del(ds,id));
        } else if(!strcmp(c,"grp_add")){ int k=itok(); tag_handle *h=calloc(k?k:1,sizeof *h); for(int i=0;i<k;i++) h[i]=htok(); int res=0; tag_group_id *g=dax_group_add(ds,&res,h,k,0); int slot=-1; if(g){ for(slot=0;slot<MAXG&&groups[slot];slot++); groups[slot]=g; } printf("%d %d %d",res,slot,g?dax_group_get_size(g):-1); free(h);
        } else if(!strcmp(c,"grp_read")){ int s=itok(); n=dax_group_get_size(groups[s]); unsigned char *b=malloc(n<4?4:n); memset(b,0xEE,n); r=dax_group_read(ds,groups[s],b,n); printf("%d ",r); phex(b,n); free(b);
        } else if(!strcmp(c,"grp_write")){ int s=itok(); unsigned char *b=unhex(tok(),&n); printf("%d",dax_group_write(ds,groups[s],b)); free(b);
        } else if(!strcmp(c,"grp_del")){ int s=itok(); r=dax_group_del(ds,groups[s]); if(!r) groups[s]=NULL; printf("%d",r);
        } else if(!strcmp(c,"v2s")){ /* v2s type index bufsize hex */ unsigned ty=itok(); int ix=itok(); int bs=itok(); unsigned char *b=unhex(tok(),&n); char *o=malloc(bs?bs:1); memset(o,0x7e,bs?bs:1); r=dax_val_to_string(o,bs,ty,b,ix); printf("%d ",r); phex(o,strnlen(o,bs)); free(o); free(b);
        } else if(!strcmp(c,"s2v")){ /* s2v type index hexstr hexbuf hexmask */ unsigned ty=itok(); int ix=itok(); char *s=unhexs(tok()); unsigned char *b=unhex(tok(),&n),*k=unhex(tok(),&m); r=dax_string_to_val(s,ty,b,k,ix); printf("%d ",r); phex(b,n); putchar(' '); if(k) phex(k,m); else putchar('-'); free(s); free(b); free(k);
        } else if(!strcmp(c,"e2s")){ const char *s=dax_event_type_to_string(itok()); if(s) phex(s,strlen(s)); else putchar('-');
        } else if(!strcmp(c,"s2e")){ char *s=unhexs(tok()); printf("%d",dax_event_string_to_type(s)); free(s);
        } else if(!strcmp(c,"errstr")){ const char *s=dax_errstr(itok()); if(s) phex(s,strlen(s)); else putchar('-');
        } else if(!strcmp(c,"topics")){ char *s=unhexs(tok()); printf("%u",dax_parse_log_topics(s)); free(s);
        } else if(!strcmp(c,"set_running")){ printf("%d",dax_set_running(ds,itok()));
        } else if(!strcmp(c,"set_faulted")){ printf("%d",dax_set_faulted(ds,itok()));
        } else if(!strcmp(c,"set_status")){ char *s=unhexs(tok()); printf("%d",dax_set_status(ds,s)); free(s);
        } else if(!strcmp(c,"sndbuf")){ /* little room in the sockets */ int v=itok(),k=0,t; socklen_t l; for(int f=3;f<64;f++){ l=sizeof t; if(getsockopt(f,SOL_SOCKET,SO_TYPE,&t,&l)==0){ setsockopt(f,SOL_SOCKET,SO_SNDBUF,&v,sizeof v); k++; } } printf("%d",k);
        } else if(!strcmp(c,"ping")){ printf("pong");
        } else if(!strcmp(c,"quit")){ break;
        } else printf("?unknown");
        putchar('\n'); fflush(out);
    }
    fflush(out);
    _exit(0);
}
