/* C20: histories of typed writes through paths; after each one every entry of the whole tree is compared with the abstract tree. */
#include <ctype.h>
#include "cfgmodel.h"
#if defined(harbol_cfg_set) && !defined(VF_NO_GENERICS)
#define GSET(m,p,v,c,fn) (vf_chance(1,3)? ({ COUNT("generic"); harbol_cfg_set((m),(p),(v),(c)); }) : fn((m),(p),(v),(c)))
#else
#define GSET(m,p,v,c,fn) fn((m),(p),(v),(c))
#endif
static struct node *top; static struct gen g; static long long li,le;
static long double vf_f(void) { return vf_chance(1,8)? (long double[]){0,-0.0L,INFINITY,LDBL_MAX,LDBL_MIN}[vf_below(5)] : (long double)(int64_t)vf_rand()/(long double)(1u<<vf_below(31)); }
static floatmax_t fn2(floatmax_t v) { return v*2; }
static void vars(char const name[], size_t len, floatmax_t *val, HarbolMathFunc **f, void *data, size_t dl, bool *isf) { CHECK(strlen(name)==len && dl==sizeof(long double),"cfg-math","callback got length %zu/%zu",len,dl); if( !strcmp(name,"x") ) *val=*(long double*)data; if( !strcmp(name,"twice") ) { *f=fn2; *isf=true; } }
static void history(uint64_t idx) {
	(void)idx; dclear(); top=m_new(HarbolCfgType_Map,"",0); li=le=0; memset(&g,0,sizeof g); g.li=&li; g.le=&le; g.budget=14; g_section(&g,top,vf_range(1,6),true); char *y=vf_exact_str(doc,dlen); OP("parse %s",vf_quote(doc,dlen)); vf_mix_bytes(doc,dlen); msg_n=0;
	struct HarbolMap *m=harbol_cfg_parse_cstr(y); vf_xfree(y); if( !m || msg_n ) { if( m ) harbol_cfg_free(&m); m_free(top); COUNT("unparsed"); vf_trivial(); return; }
	size_t ops=vf_range(1,15); char p[1600], b[900];
	for( size_t o=0; o<ops; o++ ) {
		struct node *x=NULL; if( vf_chance(5,6) ) { x=m_pick(top); if( !x || !m_path(x,p,sizeof p) ) continue; } else if( !absent_path(top,p,sizeof p) ) continue;
		char *yp=vf_exact_str(p,strlen(p)); bool conv=vf_chance(1,2), r=false, e; struct HarbolMap *was=m; int k=(int)vf_below(10);
		#define MAY(T) (x && (x->type==(T) || conv))
		#define BECOME(T) do { if( e ) { if( x->type!=(T) ) { COUNT("converted"); if( x->type==HarbolCfgType_Map ) COUNT("section-converted"); if( x->type==HarbolCfgType_Null ) COUNT("null-converted"); } else COUNT("same-type"); if( x->type!=(T) || (T)==HarbolCfgType_String ) m_empty(x); x->type=(T); } else if( x ) COUNT("other-type-refused"); else COUNT("absent-refused"); } while( 0 )
		switch( k ) {
			case 0: case 1: { size_t n=vf_chance(1,6)? 0 : rtext(b,vf_chance(1,5)? 800 : 40); b[n]=0; char *yb=vf_exact_str(b,n); e=MAY(HarbolCfgType_String); if( k==0 ) r=GSET(m,yp,yb,conv,harbol_cfg_set_cstr); else { struct HarbolString s={0}; if( n ) harbol_string_copy_cstr(&s,yb); r=GSET(m,yp,s,conv,harbol_cfg_set_str); CHECK(s.len==n && (!n || !memcmp(s.cstr,b,n)),"cfg-set-source","the given string changed"); harbol_string_clear(&s); } OP("set_%s(%s, %s, %d) -> %d",k? "str" : "cstr",vf_quote(p,strlen(p)),vf_quote(b,n),conv,r); BECOME(HarbolCfgType_String); if( e ) { m_setstr(x,b,n); if( n ) COUNT("string-set"); else COUNT("empty-string-set"); } memset(yb,'#',n); vf_xfree(yb); break; }
			case 2: { long double f=vf_f(); e=MAY(HarbolCfgType_Float); r=GSET(m,yp,f,conv,harbol_cfg_set_float); OP("set_float(%s, %Lg, %d) -> %d",vf_quote(p,strlen(p)),f,conv,r); BECOME(HarbolCfgType_Float); if( e ) x->f=f; break; }
			case 3: case 4: { intmax_t i=(intmax_t)vf_rand(); e=MAY(HarbolCfgType_Int); r=GSET(m,yp,i,conv,harbol_cfg_set_int); OP("set_int(%s, %jd, %d) -> %d",vf_quote(p,strlen(p)),i,conv,r); BECOME(HarbolCfgType_Int); if( e ) x->i=i; break; }
			case 5: { bool v=vf_chance(1,2); e=MAY(HarbolCfgType_Bool); r=GSET(m,yp,v,conv,harbol_cfg_set_bool); OP("set_bool(%s, %d, %d) -> %d",vf_quote(p,strlen(p)),v,conv,r); BECOME(HarbolCfgType_Bool); if( e ) x->b=v; break; }
			case 6: { union HarbolColor c; vf_bytes(c.array,4); e=MAY(HarbolCfgType_Color); r=GSET(m,yp,c,conv,harbol_cfg_set_color); OP("set_color(%s, %08x, %d) -> %d",vf_quote(p,strlen(p)),c.uint32,conv,r); BECOME(HarbolCfgType_Color); if( e ) memcpy(x->c,c.array,4); break; }
			case 7: { struct HarbolVec4D v={(float)vf_f(),1.5f,-(float)vf_below(100),(float)vf_f()}; e=MAY(HarbolCfgType_Vec4D); r=GSET(m,yp,v,conv,harbol_cfg_set_vec4D); OP("set_vec4D(%s, %g.., %d) -> %d",vf_quote(p,strlen(p)),v.x,conv,r); BECOME(HarbolCfgType_Vec4D); if( e ) memcpy(x->v,&v,16); break; }
			case 8: if( vf_chance(1,2) ) { e=x!=NULL; r=harbol_cfg_set_to_null(m,yp); OP("set_to_null(%s) -> %d",vf_quote(p,strlen(p)),r); if( x ) { m_empty(x); x->type=HarbolCfgType_Null; COUNT("nulled"); } break; } /* fall through */
			default: { /* evaluation of string values and reads through pointers */
				e=r=true; long double q=(long double)vf_below(1000); if( x && x->type==HarbolCfgType_String && vf_chance(1,2) ) { int t=(int)vf_below(100); snprintf(b,sizeof b,"x + twice(%d) * 2",t); bool s=harbol_cfg_set_cstr(m,yp,b,false); CHECK(s,"cfg-set","string not set"); m_setstr(x,b,strlen(b)); long double v=harbol_cfg_calc_math(m,yp,vars,&q,sizeof q); OP("calc_math(%s) -> %Lg",vf_quote(p,strlen(p)),v); CHECK(v==q+t*4,"cfg-math","%s gave %Lg, expected %Lg",b,v,q+t*4); snprintf(b,sizeof b,"[%d - 2] / 4",t); harbol_cfg_set_cstr(m,yp,b,false); m_setstr(x,b,strlen(b)); v=harbol_cfg_calc_math(m,yp,NULL,NULL,0); CHECK(v==(t-2)/4.0L,"cfg-math","%s gave %Lg",b,v); snprintf(b,sizeof b,"%s%d",t%3? "" : " ",t%10); harbol_cfg_set_cstr(m,yp,b,false); m_setstr(x,b,strlen(b)); v=harbol_cfg_calc_math(m,yp,vars,&q,sizeof q); CHECK(v==t%10,"cfg-math","%s gave %Lg",b,v); snprintf(b,sizeof b,"x"); harbol_cfg_set_cstr(m,yp,b,false); m_setstr(x,b,1); v=harbol_cfg_calc_math(m,yp,vars,&q,sizeof q); CHECK(v==q,"cfg-math","%s gave %Lg",b,v); COUNT("evaluated"); if( vf_chance(1,8) ) { /* a formula of thousands of characters */ size_t k=vf_range(300,3000), w=1; char *z=vf_xmalloc(k*8+2); z[0]='x'; for( size_t i=0; i<k; i++ ) w+=(size_t)sprintf(z+w,"%s",(char const*[]){"+1"," + 1","+ 1 ","\t+1"}[vf_below(4)]); CHECK(harbol_cfg_set_cstr(m,yp,z,false),"cfg-set","formula of %zu characters not set",w); m_setstr(x,z,w); v=harbol_cfg_calc_math(m,yp,vars,&q,sizeof q); OP("calc_math of %zu characters -> %Lg",w,v); CHECK(v==q+(long double)k,"cfg-math","formula of %zu characters gave %Lg, expected %Lg",w,v,q+(long double)k); vf_xfree(z); COUNT("long-formula"); } }
				else if( x && x->type==HarbolCfgType_String && x->slen ) { /* the entry's own text, or the end of it, written back */
					struct HarbolString *own=harbol_cfg_get_str(m,yp); CHECK(own && own->cstr,"cfg-get","no text"); size_t off=vf_chance(1,2)? 0 : vf_below(x->slen); char *n=m_dup(x->str+off,x->slen-off); bool s= off==0 && vf_chance(1,2)? harbol_cfg_set_str(m,yp,*own,conv) : harbol_cfg_set_cstr(m,yp,own->cstr+off,conv); OP("set_cstr(%s, own text + %zu) -> %d",vf_quote(p,strlen(p)),off,s); CHECK(s,"cfg-set","own text refused"); m_setstr(x,n,strlen(n)); vf_xfree(n); COUNT("own-text"); }
				else { volatile long double v=harbol_cfg_calc_math(m,yp,NULL,NULL,0); (void)v; OP("calc_math(%s)",vf_quote(p,strlen(p))); if( x && x->type==HarbolCfgType_Int ) { intmax_t *pi=harbol_cfg_get_int(m,yp); CHECK(pi,"cfg-get","no int"); *pi=12345; x->i=12345; COUNT("set-through-pointer"); } }
			}
		}
		CHECK(r==e,"cfg-set-verdict","write to %s (%s, converting %s) returned %d, expected %d",vf_quote(p,strlen(p)),x? m_tname[x->type] : "absent",conv? "allowed" : "not allowed",r,e); CHECK(m==was,"cfg-set","handle changed");
		cmp_tree(m,top,NULL,"cfg-after-set",""); check_get(m,yp,x,"cfg-read-after-set"); vf_xfree(yp); if( absent_path(top,p,sizeof p) ) check_get(m,p,NULL,"cfg-path-absent"); cmp_tree(m,top,NULL,"cfg-after-get","");
	}
	if( ops<3 ) vf_trivial(); harbol_cfg_free(&m); vf_leak_check("cfg-leak"); m_free(top);
}
/* edits at the end of long paths through deep nesting; the sections above and beside stay as they are */
static void deep(uint64_t idx) {
	(void)idx; size_t n=vf_range(2,vf_chance(1,3)? 450 : 60), kl= n<100 && vf_chance(1,3)? vf_range(50,n<20? 3500 : 300) : vf_range(1,6); vf_set_cpu_limit(60); dclear(); char *path=vf_xmalloc(n*(kl+40)*2+100), *q=path; size_t *end=vf_xmalloc((n+1)*sizeof *end);
	for( size_t i=0; i<n; i++ ) { static char k[4000], e[8000]; size_t w=0, v=0; for( size_t j=0; j<kl; j++ ) { k[w++]="abc.xyz_ 0"[vf_below(10)]; } k[w]=0; w+=(size_t)sprintf(k+w,"%zu",i); for( size_t j=0; j<w; j++ ) { if( k[j]=='.' ) e[v++]='\\'; e[v++]=k[j]; } e[v]=0; static char b[8100]; snprintf(b,sizeof b,"'side%zu': %zu '%s': {",i,i,k); dputs(b); if( q!=path ) *q++='.'; memcpy(q,e,v+1); q+=v; end[i]=(size_t)(q-path); }
	dputs("'leaf': 1 'beside': 'text'"); for( size_t i=0; i<n; i++ ) { dput('}'); char b[60]; snprintf(b,sizeof b," 'after%zu': v[%zu]",n-i-1,i); dputs(b); }
	msg_n=0; struct HarbolMap *m=harbol_cfg_parse_cstr(doc); CHECK(m && !msg_n,"cfg-deep","%s",msg_text); OP("%zu levels, keys of about %zu bytes: path of %zu bytes",n,kl,strlen(path)); vf_mix_bytes(path,strlen(path));
	char *lp=vf_xmalloc(strlen(path)+20); sprintf(lp,"%s.leaf",path); char *yl=vf_exact_str(lp,strlen(lp)); sprintf(lp,"%s.beside",path); char *yb=vf_exact_str(lp,strlen(lp));
	intmax_t *pi=harbol_cfg_get_int(m,yl); CHECK(pi && *pi==1,"cfg-deep","leaf not found"); struct HarbolMap *in=harbol_cfg_get_section(m,path); CHECK(in && in->len==2,"cfg-deep","innermost section");
	for( int o=0; o<6; o++ ) { bool conv=vf_chance(3,4), r; enum HarbolCfgType was=harbol_cfg_get_type(m,yl); switch( vf_below(5) ) {
		case 0: r=harbol_cfg_set_int(m,yl,o*7,conv); CHECK(r==(conv||was==HarbolCfgType_Int),"cfg-deep","set_int"); if( r ) CHECK((pi=harbol_cfg_get_int(m,yl)) && *pi==o*7,"cfg-deep","int"); break;
		case 1: r=harbol_cfg_set_cstr(m,yl,path,conv); CHECK(r==(conv||was==HarbolCfgType_String),"cfg-deep","set_cstr"); if( r ) { struct HarbolString *s=harbol_cfg_get_str(m,yl); CHECK(s && s->len==strlen(path) && !strcmp(s->cstr,path),"cfg-deep","text"); size_t l=7; char *cs=harbol_cfg_get_cstr(m,yl,&l); CHECK(cs==s->cstr && l==s->len,"cfg-deep","text of %zu bytes said to have %zu",s->len,l);
				if( vf_chance(1,4) ) { size_t zn=vf_chance(1,2)? vf_range(65530,65542) : vf_range(1000,150000); char *z=vf_xmalloc(zn+1); for( size_t i=0; i<zn; i++ ) z[i]=(char)('A'+i%57); z[zn]=0; r=vf_chance(1,2)? harbol_cfg_set_cstr(m,yl,z,false) : harbol_cfg_set_str(m,yl,(struct HarbolString){.cstr=z,.len=zn},false); l=0; cs=harbol_cfg_get_cstr(m,yl,&l); CHECK(r && cs && l==zn && !memcmp(cs,z,zn+1),"cfg-deep","text of %zu bytes set, %zu read",zn,l); vf_xfree(z); COUNT("long-text"); } } break;
		case 2: r=harbol_cfg_set_float(m,yl,1.5L+o,conv); CHECK(r==(conv||was==HarbolCfgType_Float),"cfg-deep","set_float"); if( r ) { floatmax_t *f=harbol_cfg_get_float(m,yl); CHECK(f && *f==1.5L+o,"cfg-deep","float"); } break;
		case 3: r=harbol_cfg_set_to_null(m,yl); CHECK(r && harbol_cfg_get_type(m,yl)==HarbolCfgType_Null,"cfg-deep","null"); break;
		default: r=harbol_cfg_set_bool(m,yl,true,conv); CHECK(r==(conv||was==HarbolCfgType_Bool),"cfg-deep","set_bool"); if( r ) { bool *b=harbol_cfg_get_bool(m,yl); CHECK(b && *b,"cfg-deep","bool"); } }
		struct HarbolString *t=harbol_cfg_get_str(m,yb); CHECK(t && t->len==4 && !strcmp(t->cstr,"text"),"cfg-deep","the entry beside changed"); COUNT("deep-edit"); }
	/* every level is as it was, seen from the outside in */
	struct HarbolMap *x=m; for( size_t i=0; i<n; i++ ) { CHECK(x->len==3,"cfg-deep","level %zu holds %zu entries",i,x->len); char b[40]; snprintf(b,sizeof b,"side%zu",i); pi=harbol_cfg_get_int(x,b); CHECK(pi && *pi==(intmax_t)i,"cfg-deep","%s",b); snprintf(b,sizeof b,"after%zu",i); struct HarbolVec4D *v=harbol_cfg_get_vec4D(x,b); CHECK(v && v->x==(float)(n-i-1),"cfg-deep","%s",b); char c=path[end[i]]; path[end[i]]=0; struct HarbolMap *y=harbol_cfg_get_section(x,path+(i? end[i-1]+1 : 0)); if( i%16==3 ) CHECK(y==harbol_cfg_get_section(m,path),"cfg-deep","section at level %zu",i); path[end[i]]=c; CHECK(y,"cfg-deep","level %zu",i); x=y; }
	/* an edit in the middle cuts off everything below */
	size_t mid=vf_below(n); char c=path[end[mid]]; path[end[mid]]=0; bool r=harbol_cfg_set_int(m,path,5,false); CHECK(!r,"cfg-deep","a section was overwritten"); r=harbol_cfg_set_int(m,path,5,true); CHECK(r && (pi=harbol_cfg_get_int(m,path)) && *pi==5,"cfg-deep","section not converted"); path[end[mid]]=c; CHECK(harbol_cfg_get_type(m,yl)==HarbolCfgType_Invalid,"cfg-deep","an entry below a number");
	vf_xfree(yl); vf_xfree(yb); vf_xfree(lp); vf_xfree(path); vf_xfree(end); harbol_cfg_free(&m); vf_leak_check("cfg-leak"); COUNT("deep"); if( n>200 ) COUNT("very-deep");
}
struct vf_mode const vf_modes[] = { {"history", history}, {"deep", deep}, {0} };
struct vf_probe const vf_probes[] = { {0} };
