/* Runs Lua chunks with the dax package of libdax.  Requests are "<interpreter> <length>\n<chunk>"; the answer is
 * "OK <hex>" or "ERR <hex>".  An interpreter numbered 100 and up gets its connection from interpreter-100 (as a C host
 * would do with daxlua_set_state). */
#include <opendax.h>
#include "lib/lua/libdaxlua.h"
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static FILE *out;
static lua_State *L[200];
static dax_state *hostds;
int luaopen_dax(lua_State *L);
static void ph(FILE *f, const char *s, size_t n){ if(!n) fputc('.',f); while(n--) fprintf(f,"%02x",(unsigned char)*s++); }
static const char *prelude =
"local mt = math.type\n"
"function ser(v)\n"
"  local t = type(v)\n"
"  if t == 'nil' then return 'n' end\n"
"  if t == 'boolean' then return v and 't' or 'F' end\n"
"  if t == 'number' then\n"
"    if mt(v) == 'integer' then return 'i' .. string.format('%d', v) .. ';' end\n"
"    return 'd' .. string.gsub(string.pack('>d', v), '.', function(c) return string.format('%02x', c:byte()) end)\n"
"  end\n"
"  if t == 'string' then return 's' .. #v .. ':' .. v end\n"
"  if t == 'table' then local r = {} for k, x in pairs(v) do r[#r+1] = ser(k) .. ser(x) end return '{' .. table.concat(r) .. '}' end\n"
"  return 'u' .. #tostring(v) .. ':' .. tostring(v)\n"
"end\n";
/* what a C program does with a value of Lua: write it to a tag, the stack has to be left in order */
static int hostwrite(lua_State *S){
    tag_handle h; int r, top; char *d, *m; 
    if(dax_tag_handle(hostds, &h, (char *)luaL_checkstring(S,1), 0)) return luaL_error(S, "no handle");
    lua_settop(S,2); d=malloc(h.size); m=calloc(1,h.size); memset(d,0xA5,h.size);
    top=lua_gettop(S); r=daxlua_lua_to_dax(S,h,d,m);
    if(lua_gettop(S) != top+(r!=0)){ lua_pushfstring(S,"STACK %d to %d with result %d",top,lua_gettop(S),r); free(d); free(m); return lua_error(S); }
    if(r && lua_type(S,-1)!=LUA_TSTRING){ lua_pushfstring(S,"STACK error is a %s",luaL_typename(S,-1)); free(d); free(m); return lua_error(S); }
    if(r){ free(d); free(m); return lua_error(S); }
    r=dax_tag_mask(hostds,h,d,m); free(d); free(m);
    if(r) return luaL_error(S,"mask %d",r);
    return 0;
}
static int hostread(lua_State *S){
    tag_handle h; int top, r; char *d;
    if(dax_tag_handle(hostds, &h, (char *)luaL_checkstring(S,1), 0)) return luaL_error(S, "no handle");
    d=malloc(h.size); r=dax_tag_read(hostds,h,d); if(r){ free(d); return luaL_error(S,"read %d",r); }
    top=lua_gettop(S); daxlua_dax_to_lua(S,h,d); free(d);
    if(lua_gettop(S)!=top+1) return luaL_error(S,"STACK %d to %d",top,lua_gettop(S));
    return 1;
}
static int hoststate(lua_State *S){ hostds=dax_init("host"); (void)S;
    char *av[3]={"host","-U",(char*)lua_tostring(S,1)}; dax_configure(hostds,3,av,CFG_CMDLINE); int r=dax_connect(hostds); if(r) return luaL_error(S,"connect %d",r); daxlua_set_state(S,hostds); return 0; }
static lua_State *get(int k){
    if(L[k]) return L[k];
    L[k]=luaL_newstate(); luaL_openlibs(L[k]);
    luaL_requiref(L[k],"dax",luaopen_dax,1); lua_pop(L[k],1);
    lua_register(L[k],"hostwrite",hostwrite); lua_register(L[k],"hostread",hostread); lua_register(L[k],"hoststate",hoststate);
    if(luaL_dostring(L[k],prelude)) abort();
    if(k>=100) daxlua_set_state(L[k],hostds);
    return L[k];
}
int main(void){
    int k; size_t n, l; char *b=NULL; const char *s;
    out=fdopen(dup(1),"w"); dup2(2,1); setvbuf(stdout,NULL,_IOLBF,4096);
    while(scanf("%d %zu",&k,&n)==2){
        getchar(); b=realloc(b,n+1); if(fread(b,1,n,stdin)!=n) break;
        if(k<0){ lua_close(L[-k]); L[-k]=NULL; fprintf(out,"OK .\n"); fflush(out); continue; }
        lua_State *S=get(k); lua_settop(S,0);
        int r=luaL_loadbuffer(S,b,n,"chunk") || lua_pcall(S,0,1,0);
        s=luaL_tolstring(S,-1,&l);
        fprintf(out,r?"ERR ":"OK "); ph(out,s,l); fputc('\n',out); fflush(out);
        lua_settop(S,0);
    }
    return 0;
}
