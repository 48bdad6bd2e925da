#!/usr/bin/env python3
"""Writes specs/corpus/*.x: every declaration form over every element type, in every context, and their nesting."""
import os
D=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','specs','corpus')
def w(name,variants,text):
    # variants: flags the generator is run with; each gives a package of its own
    with open(os.path.join(D,name+'.x'),'w') as f:
        for v in variants: f.write('/* run: %s */\n'%v)
        f.write(text)

U='-unsigned-enum -const-type uint32 -t'
base='''const LIM = 2;
const WIDE = 5;
enum color { RED = 0, GREEN = 1, BLUE = 7 };
typedef string name<8>;
typedef opaque blob<5>;
typedef opaque fix[3];
struct pair { int a; unsigned hyper b; };
union choice switch (color c) { case RED: int r; case GREEN: case BLUE: name gb; };
typedef pair *optpair;
typedef int ints<LIM>;
'''
elems=['int','unsigned int','hyper','unsigned hyper','bool','color','name','blob','fix','pair','choice','optpair','ints']
def ident(e): return e.replace('unsigned ','u')
t=base
for e in elems:
    n=ident(e)
    t+=f'''typedef {e} al_{n};
typedef {e} ar_{n}[2];
typedef {e} va_{n}<>;
typedef {e} vl_{n}<LIM>;
typedef {e} *op_{n};
struct st_{n} {{ {e} x; {e} ar[LIM]; {e} va<>; {e} vl<3>; {e} *op; int last; }};
union un_{n} switch (int d) {{ case 0: {e} x; case 1: {e} ar[2]; case 2: {e} va<LIM>; case 3: {e} vl<>; default: {e} *op; }};
'''
w('forms',['',],t)

w('bytes',['',U],'''const LIM = 4;
const i = 3;
const v = 6;
enum sizes { small = 1, MEDIUM = 5, large = 9 };
typedef string s0<>;
typedef string s1<1>;
typedef string s4<LIM>;
typedef string s7<7>;
typedef string si<i>;
typedef string sv<v>;
typedef string sm<MEDIUM>;
typedef string ss<small>;
typedef string sz<0>;
typedef string sx<4294967295>;
typedef string sh<0x10>;
typedef opaque o0<>;
typedef opaque o1<1>;
typedef opaque o4<LIM>;
typedef opaque o7<7>;
typedef opaque oi<i>;
typedef opaque ov<v>;
typedef opaque ol<large>;
typedef opaque oz<0>;
typedef opaque ox<4294967295>;
typedef opaque f1[1];
typedef opaque f2[2];
typedef opaque f3[i];
typedef opaque f4[LIM];
typedef opaque f5[MEDIUM];
typedef opaque f6[v];
typedef opaque f8[8];
typedef int a1[1];
typedef int ai[i];
typedef hyper av[v];
typedef int as[small];
typedef int li<i>;
typedef int lv<v>;
typedef int lm<MEDIUM>;
struct all { string a<>; string b<LIM>; opaque c<>; opaque d<i>; opaque e[i]; opaque f[LIM]; string g<small>; int h; };
union pick switch (sizes s) {
case small: string a<>;
case MEDIUM: opaque b<LIM>;
case large: opaque c[v];
};
union spare switch (int s) {
case 1: opaque a<>;
default: string b<LIM>;
};
''')

w('nest',['',U],'''const LIM = 2;
typedef struct { int a; struct { hyper b; string c<3>; } in; } anon;
struct deep { struct { struct { int x; } y; int z; } w; int last; };
struct fixfix { struct { int in[2]; } out[2]; };
struct fixvar { struct { int in<LIM>; hyper t; } out[2]; };
struct varfix { struct { int in[3]; hyper t; } out<>; };
struct varvar { struct { int in<>; hyper t; } out<LIM>; };
struct three { struct { struct { int in[2]; } mid<LIM>; } out[2]; };
struct threevar { struct { struct { int in<>; } mid<>; } out<>; int last; };
struct twice { struct { int a[2]; int b<LIM>; } x[2]; struct { int c<LIM>; int d[2]; } y<LIM>; };
struct optin { struct { int *p; int q; } *out; int last; };
struct optvar { struct { int in<LIM>; } *out; int last; };
struct varopt { struct { int *p; } out<LIM>; int last; };
struct fixopt { struct { int *p; int in[2]; } out[2]; };
struct optopt { struct { struct { int *a; } *b; } *c; int last; };
struct uin { union switch (int d) { case 1: int a; case 2: struct { int b<LIM>; } c; default: void; } u; int last; };
struct uarr { union switch (bool d) { case TRUE: hyper a[2]; case FALSE: void; } u[2]; int last; };
struct uvar { union switch (unsigned int d) { case 0: string s<>; default: int k; } u<LIM>; int last; };
struct uopt { union switch (int d) { case 5: int a; case 6: void; } *u; int last; };
union uu switch (int d) { case 0: union switch (bool e) { case TRUE: int a; case FALSE: hyper b; } in; default: struct { int z[2]; } s; };
union us switch (bool d) { case TRUE: struct { int a; string b<4>; struct { int c; } *p; } s; case FALSE: void; };
typedef struct { int k; } arrst[2];
typedef struct { int k<>; } varst<LIM>;
typedef struct { int k; string n<>; } *optst;
typedef union switch (int d) { case 1: int a; default: void; } anonun;
typedef union switch (int d) { case 1: int a; default: string b<>; } arrun[2];
''')

w('unions',['','-unsigned-enum'],'''const ONE = 1;
const two = 2;
const BIG = 0x7fffffff;
enum kind { KA = 1, KB = 2, kc = 0x10, KD = KB2, KE = 2147483647 };
typedef kind kind2;
typedef bool flag;
typedef int num;
typedef unsigned int unum;
struct body { int a; int b; };
union ek switch (kind k) { case KA: int a; case KB: void; case kc: hyper c; };
union ed switch (kind k) { case KA: int a; case kc: hyper c; default: void; };
union edd switch (kind k) { case KA: void; default: body d; };
union ev switch (kind k) { case KA: case KB: case kc: body x; case KE: void; };
union evd switch (kind k) { case KE: case KA: void; case KB: int y; default: string z<>; };
union only switch (kind k) { default: int a; };
union onlyv switch (kind k) { case KA: void; };
union noarms switch (kind k) { case KE: int a; };
union k2 switch (kind2 k) { case KA: int a; case KB: hyper b; default: void; };
union bt switch (bool b) { case TRUE: int a; case FALSE: void; };
union bf switch (bool b) { case FALSE: int a; case TRUE: hyper c; };
union bd switch (bool b) { case TRUE: int a; default: hyper c; };
union bo switch (bool b) { case TRUE: int a; default: void; };
union bs switch (bool b) { case TRUE: case FALSE: int a; };
union fl switch (flag b) { case TRUE: string a<>; case FALSE: int c; };
union ii switch (int i) { case 0: int a; case 1: void; case 2: hyper c; default: body d; };
union ic switch (int i) { case ONE: int a; case two: hyper b; case BIG: void; };
union ix switch (int i) { case 0x0: int a; case 0x1F: hyper b; default: void; };
union is switch (int i) { case 0: case 1: case ONE2: int a; case 5: case 6: void; default: int z; };
union ui switch (unsigned int i) { case 0: int a; case 4294967295: hyper b; default: void; };
union hy switch (num n) { case 3: int a; case 4: body b; };
union un switch (unum n) { case 3: int a; case 4: body b; default: void; };
struct holder { ek a; int m; bt b; ii c[2]; is d<2>; ed *e; int last; };
union inner switch (kind k) { case KA: bt b; case KB: ii i; default: ek e; };
const ONE2 = 77;
'''.replace('KD = KB2','KD = 3'))

w('recur',['',U],'''struct list { int v; list *next; };
typedef list *head;
struct tree { int v; tree *l; tree *r; };
struct bush { int v; bush kids<>; };
struct bushl { bushl kids<2>; string n<4>; };
struct ping { int a; pong *p; };
struct pong { hyper b; ping *q; };
union ulist switch (bool more) { case TRUE: node n; case FALSE: void; };
struct node { int v; ulist *rest; };
struct entry { string name<>; opaque handle<8>; entry *nextentry; };
struct dir { entry *entries; bool eof; };
typedef struct { int v; head h; } wrap;
struct uselist { head a; head b; int last; };
''')

w('names',['',U],'''struct type { int map; int type; int len; int make; int append; int error; };
struct map { type t; type *u; type v<2>; };
typedef int Upper;
typedef int lower_case;
struct mixed_Case { Upper aB; lower_case Ab_c; };
const c1 = 1;
const nil = 2;
const xs = 2;
const xdr2 = 010;
typedef int useXs[xs];
typedef hyper useNil<nil>;
typedef opaque useOct[xdr2];
struct locals { int xs; int i; int v; int opted<xs>; bool ok; int p; hyper w[nil]; string args<xs>; opaque in[xs]; int out; int res; int err; int h; };
struct empty { };
typedef empty aliasempty;
struct hasempty { int a; empty e; int b; };
''')

w('progs',['',U],'''struct arg { int a; string b<4>; };
struct res { hyper c; opaque d<>; };
union rep switch (bool ok) { case TRUE: res r; case FALSE: void; };
typedef arg *oarg;
enum stat { GOOD = 0, BAD = 1 };
program PA {
  version A1 { void A_NULL(void) = 0; res A_FIRST(arg) = 1; res A_SECOND(arg) = 2; arg A_THIRD(arg) = 3; arg a_fourth(void) = 4; void A_FIFTH(arg) = 5; } = 1;
  version A2 { void A_NULL(void) = 0; res A_FIRST(arg) = 1; rep A_SWAPPED(oarg) = 3; rep A_OTHER(oarg) = 2; stat A_STAT(stat) = 9; } = 2;
  version A7 { void A_NULL(void) = 0; res A_FIRST(arg) = 1; } = 0x7;
} = 0x20000001;
program PB {
  version B1 { void B_NULL(void) = 0; int B_INT(unsigned int) = 5; unsigned int B_UINT(int) = 1; hyper B_HYPER(unsigned hyper) = 2; unsigned hyper B_UHYPER(hyper) = 3; bool B_BOOL(bool) = 4; void B_VOID(bool) = 0x11; int B_CONST(void) = 40; } = 1;
} = 536870914;
program pc { version c1 { void c_null(void) = 0; } = 3; } = 536870915;
''')

w('consts',['','-const-type uint32','-t -const-type uint32'],'''const A = 1;
const B = 0x10;
const low = 3;
const OCT = 017;
const MAX = 4294967295;
const ZERO = 0;
''')

w('enums',['','-unsigned-enum','-const-type uint32'],'''const K = 4;
const small = 6;
enum e1 { E_A = 0, E_B = 1, E_C = K, E_D = small, E_E = 0x20, e_low = 100, E_F = e_low };
enum e2 { F_A = 2147483647 };
struct use { e1 a; e2 b; e1 c[2]; e2 d<2>; e1 *e; };
typedef e1 alias;
typedef alias alias2;
struct use2 { alias a; alias2 b; alias2 *c; };
''')

w('minus',['','-t'],'''const NEG = -5;
const POS = 3;
const NHEX = -0x10;
enum err { LOST = -1, BAD = NEG, FINE = 0, DEEP = -2147483648, LATE = POS };
enum low { ONLY = -3 };
union byerr switch (err e) { case LOST: int a; case BAD: hyper b; case DEEP: case FINE: void; default: string s<POS>; };
union byint switch (int d) { case -1: int a; case NEG: hyper b; case -0x20: case -7: string c<>; case 5: void; };
union bynum switch (low d) { case ONLY: int a; case -4: hyper b; default: void; };
struct holder { err a; byerr b; byint c<2>; low d; };
''')

w('gowords',['','-t'],'''const package = 3;
enum func { var = 1, go = 2 };
struct range { int if<package>; func else[package]; opaque chan<package>; string goto<>; range *interface; };
union select switch (func type) { case var: int return; case go: hyper for; default: range map; };
typedef range import<2>;
typedef int defer[package];
struct break { import continue; defer fallthrough; select var<1>; };
program IF { version ELSE { break F_IF(select) = 1; void F_FOR(range) = 2; int F_VAR(func) = 3; } = 1; } = 9;
''')
