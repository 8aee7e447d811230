/* Line driven front end to the configuration part of libdax.  Strings are hex, "-" is NULL, "." is empty. */
#include <opendax.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static FILE *out;
#define MAXS 4000
static dax_state *st[MAXS]; static int ns;
static char cbs[65536];
static char *unh(const char *s){ if(!s || !strcmp(s,"-")) return NULL; if(!strcmp(s,".")) return calloc(1,1);
    size_t n=strlen(s)/2; char *b=malloc(n+1); for(size_t i=0;i<n;i++){ unsigned x; sscanf(s+2*i,"%2x",&x); b[i]=x; } b[n]=0; return b; }
static void ph(FILE *f, const char *s){ if(!s){ fputc('-',f); return; } if(!*s){ fputc('.',f); return; } for(;*s;s++) fprintf(f,"%02x",(unsigned char)*s); }
static char *tok(void){ return strtok(NULL," \n"); }
static int cb(char *name, char *value){ size_t l=strlen(cbs); FILE *f=fmemopen(cbs+l, sizeof(cbs)-l, "w"); fputc(' ',f); ph(f,name); fputc('=',f); ph(f,value); fputc(0,f); fclose(f); return 0; }
int main(void){
    char *line=NULL; size_t cap=0; int k, r, fl; char *a, *b, *d, *t; char *av[256]; int ac;
    out=fdopen(dup(1),"w"); dup2(2,1); setvbuf(stdout,NULL,_IOLBF,4096);
    while(getline(&line,&cap,stdin)>0){
        char *c=strtok(line," \n"); if(!c) continue;
        k=atoi(tok());
        if(!strcmp(c,"new")){ a=unh(tok()); st[ns]=dax_init(a); r=dax_init_config(st[ns], a); fprintf(out,"%d %d",ns++,r); free(a); }
        else if(!strcmp(c,"add")){ a=unh(tok()); b=unh(tok()); int sh=atoi(tok()); fl=atoi(tok()); d=unh(tok()); fprintf(out,"%d",dax_add_attribute(st[k],a,b,sh,fl,d)); free(a); free(b); free(d); }
        else if(!strcmp(c,"cb")){ a=unh(tok()); fprintf(out,"%d",dax_attr_callback(st[k],a,cb)); free(a); }
        else if(!strcmp(c,"conf")){ fl=atoi(tok()); ac=0; while((t=tok()) && ac<255) av[ac++]=unh(t); av[ac]=NULL; cbs[0]=0;
            char *cp[256]; memcpy(cp,av,sizeof(char*)*(ac+1));   /* getopt reorders */
            fprintf(out,"%d%s",dax_configure(st[k],ac,av,fl),cbs); for(int i=0;i<ac;i++) free(cp[i]); }
        else if(!strcmp(c,"get")){ a=unh(tok()); ph(out,dax_get_attr(st[k],a)); free(a); }
        else if(!strcmp(c,"self")){ a=unh(tok()); r=dax_set_attr(st[k],a,dax_get_attr(st[k],a)); fprintf(out,"%d",r); free(a); }
        else if(!strcmp(c,"set")){ a=unh(tok()); b=unh(tok()); fprintf(out,"%d",dax_set_attr(st[k],a,b)); free(a); free(b); }
        else if(!strcmp(c,"connect")){ r=dax_connect(st[k]); fprintf(out,"%d",r); }
        else if(!strcmp(c,"disconnect")){ fprintf(out,"%d",dax_disconnect(st[k])); }
        else if(!strcmp(c,"free")){ dax_free_config(st[k]); dax_free(st[k]); st[k]=NULL; fprintf(out,"0"); }
        else if(!strcmp(c,"log")){ fl=strtol(tok(),NULL,0); a=unh(tok()); dax_log(fl,"%s",a); fflush(stdout); fprintf(out,"0"); free(a); }
        fputc('\n',out); fflush(out);
    }
    return 0;
}
