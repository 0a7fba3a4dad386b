/* shared part of the per-schema drivers: one line in, one line of JSON out */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include "asn1crt.h"
#include "asn1crt_encoding.h"
typedef unsigned long long u64;
static char *line; static size_t lcap; static char *cur;
static u64 nx(void){ char *e; u64 v=strtoull(cur,&e,16); if(e==cur){ fprintf(stderr,"driver: token missing in: %.200s\n",line); exit(97);} cur=e; return v; }
static double nxd(void){ u64 v=nx(); double d; memcpy(&d,&v,8); return d; }
static void p9(int neg,u64 v){ printf("[%d",neg?255:0); for(int i=7;i>=0;i--) printf(",%d",(int)((v>>(8*i))&255)); putchar(']'); }
static void p8(u64 v){ putchar('['); for(int i=7;i>=0;i--) printf("%s%d",i<7?",":"",(int)((v>>(8*i))&255)); putchar(']'); }
static void pd(double d){ u64 v; memcpy(&v,&d,8); p8(v); }
static void po(const byte*a,long n,long max){ putchar('['); for(long i=0;i<n&&i<max;i++) printf("%s%d",i?",":"",a[i]); putchar(']'); }
static void pb(const byte*a,long n,long max){ putchar('['); for(long i=0;i<n&&i<8*max;i++) printf("%s%d",i?",":"",(a[i/8]>>(7-i%8))&1); putchar(']'); }
static void ps(const char*s,long max){ putchar('['); for(long i=0;i<max&&s[i];i++) printf("%s%d",i?",":"",(unsigned char)s[i]); putchar(']'); }
static void poid(const Asn1ObjectIdentifier*o){ putchar('['); for(int i=0;i<o->nCount&&i<20;i++){ if(i) putchar(','); p8(o->values[i]); } putchar(']'); }
static void hang(int s){ (void)s; if(write(1,"HANG\n",5)){} _exit(98); }
static void *mk(size_t n,int fill){ void*p=malloc(n?n:1); memset(p,fill,n); return p; }
static long bitpos(const BitStream*s){ return s->currentByte*8+s->currentBit; }

/* T the type; A the way a value is passed (v or *v) */
#define FLOW(T,A,ENC,DEC,CAP,NAME) \
static void NAME##_E(int fill){ int err=0,derr=0; T*v=mk(sizeof(T),fill); rd_##T(v); T*w=mk(sizeof(T),fill^0x5a); \
  flag valid=T##_IsConstraintValid(A(v),&err); printf("{\"k\":\"E\",\"valid\":%d,\"verr\":%d",(int)valid,err!=0); \
  byte*buf=mk(CAP,fill); BitStream s; BitStream_Init(&s,buf,CAP); err=0; \
  flag ok=ENC(A(v),&s,&err,TRUE); printf(",\"enc\":%d,\"err\":%d,\"cap\":%ld",(int)ok,err!=0,(long)NAME##_BITS); \
  if(ok){ long n=bitpos(&s), nb=(n+7)/8; printf(",\"n\":%ld,\"b\":",n); po(buf,nb,CAP); \
    byte*b2=mk(nb,0); memcpy(b2,buf,nb); BitStream d; BitStream_AttachBuffer(&d,b2,nb); \
    flag dok=DEC(A(w),&d,&derr); printf(",\"dec\":%d,\"derr\":%d,\"p\":%ld",(int)dok,derr!=0,bitpos(&d)); \
    if(dok){ printf(",\"dv\":"); pr_##T(w); printf(",\"eq\":%d",(int)T##_Equal(A(v),A(w))); } free(b2); } \
  printf("}\n"); free(buf); free(v); free(w); } \
static void NAME##_D(int fill){ int err=0; T*w=mk(sizeof(T),fill); long nb=nx(); byte*b=mk(nb,0); for(long i=0;i<nb;i++) b[i]=nx(); \
  BitStream d; BitStream_AttachBuffer(&d,b,nb); flag ok=DEC(A(w),&d,&err); \
  printf("{\"k\":\"D\",\"dec\":%d,\"err\":%d",(int)ok,err!=0); \
  if(ok){ printf(",\"p\":%ld,\"dv\":",bitpos(&d)); pr_##T(w); } printf("}\n"); free(b); free(w); }
#ifdef ASN1SCC_ASN1CRT_ENCODING_XER_H_
static long w0(const ByteStream*s){ return s->currentByte; }
#define FLOWX(T,A,ENC,DEC,CAP,NAME) \
static void NAME##_E(int fill){ int err=0,derr=0; T*v=mk(sizeof(T),fill); rd_##T(v); T*w=mk(sizeof(T),fill^0x5a); \
  flag valid=T##_IsConstraintValid(A(v),&err); printf("{\"k\":\"E\",\"valid\":%d,\"verr\":%d",(int)valid,err!=0); \
  byte*buf=mk(CAP,fill); ByteStream s; ByteStream_Init(&s,buf,CAP); err=0; \
  flag ok=ENC(A(v),&s,&err,TRUE); printf(",\"enc\":%d,\"err\":%d,\"cap\":%ld",(int)ok,err!=0,(long)(CAP)); \
  if(ok){ long n=w0(&s); printf(",\"n\":%ld,\"b\":",n); po(buf,n,CAP); \
    byte*b2=mk(n,0); memcpy(b2,buf,n); ByteStream d; ByteStream_AttachBuffer(&d,b2,n); \
    flag dok=DEC(A(w),&d,&derr); printf(",\"dec\":%d,\"derr\":%d,\"p\":%ld",(int)dok,derr!=0,w0(&d)); \
    if(dok){ printf(",\"dv\":"); pr_##T(w); } free(b2); } \
  printf("}\n"); free(buf); free(v); free(w); } \
static void NAME##_D(int fill){ int err=0; T*w=mk(sizeof(T),fill); long nb=nx(); byte*b=mk(nb,0); for(long i=0;i<nb;i++) b[i]=nx(); \
  ByteStream d; ByteStream_AttachBuffer(&d,b,nb); flag ok=DEC(A(w),&d,&err); \
  printf("{\"k\":\"D\",\"dec\":%d,\"err\":%d",(int)ok,err!=0); \
  if(ok){ printf(",\"p\":%ld,\"dv\":",w0(&d)); pr_##T(w); } printf("}\n"); free(b); free(w); }
#endif
#define MISC(T,A) \
static void Q_##T(int fill){ T*v=mk(sizeof(T),fill); rd_##T(v); T*w=mk(sizeof(T),fill^0xff); rd_##T(w); \
  int a=T##_Equal(A(v),A(w)), b=T##_Equal(A(w),A(v)); printf("{\"k\":\"Q\",\"eq\":%d,\"eqr\":%d}\n",a,b); free(v); free(w); } \
static void I_##T(int fill){ int err=0; T*v=mk(sizeof(T),fill); T##_Initialize(A(v)); flag ok=T##_IsConstraintValid(A(v),&err); \
  printf("{\"k\":\"I\",\"valid\":%d,\"v\":",(int)ok); pr_##T(v); printf("}\n"); free(v); }
#define SIZES(NAME) static void NAME##_S(int fill){ (void)fill; printf("{\"k\":\"S\",\"bits\":%ld,\"bytes\":%ld}\n",(long)NAME##_BITS,(long)NAME##_BYTES); }
typedef void (*fn)(int);
typedef struct { const char*cmd; int idx; fn f; } ent;
static int drive(const ent*t,int n){
  signal(SIGALRM,hang);
  while(getline(&line,&lcap,stdin)>0){
    char cmd[8]; int idx,used; unsigned fill;
    if(sscanf(line,"%7s %d %x%n",cmd,&idx,&fill,&used)<3){ fprintf(stderr,"driver: bad line\n"); return 97; }
    cur=line+used; int done=0; alarm(8);
    for(int i=0;i<n;i++) if(t[i].idx==idx&&!strcmp(t[i].cmd,cmd)){ t[i].f((int)fill); done=1; break; }
    alarm(0);
    if(!done){ fprintf(stderr,"driver: unknown command %s %d\n",cmd,idx); return 97; }
    fflush(stdout);
  }
  return 0; }
#define PV(v) (v)
#define PA(v) (*(v))
