/* run:  */
/* run: -unsigned-enum -const-type uint32 -t */
const LIM = 2;
typedef struct { int a; struct { hyper b; string c<3>; } in; } anon;
struct deep { struct { struct { int x; } y; int z; } w; int last; };
struct fixfix { struct { int in[2]; } out[2]; };
struct fixvar { struct { int in<LIM>; hyper t; } out[2]; };
struct varfix { struct { int in[3]; hyper t; } out<>; };
struct varvar { struct { int in<>; hyper t; } out<LIM>; };
struct three { struct { struct { int in[2]; } mid<LIM>; } out[2]; };
struct threevar { struct { struct { int in<>; } mid<>; } out<>; int last; };
struct twice { struct { int a[2]; int b<LIM>; } x[2]; struct { int c<LIM>; int d[2]; } y<LIM>; };
struct optin { struct { int *p; int q; } *out; int last; };
struct optvar { struct { int in<LIM>; } *out; int last; };
struct varopt { struct { int *p; } out<LIM>; int last; };
struct fixopt { struct { int *p; int in[2]; } out[2]; };
struct optopt { struct { struct { int *a; } *b; } *c; int last; };
struct uin { union switch (int d) { case 1: int a; case 2: struct { int b<LIM>; } c; default: void; } u; int last; };
struct uarr { union switch (bool d) { case TRUE: hyper a[2]; case FALSE: void; } u[2]; int last; };
struct uvar { union switch (unsigned int d) { case 0: string s<>; default: int k; } u<LIM>; int last; };
struct uopt { union switch (int d) { case 5: int a; case 6: void; } *u; int last; };
union uu switch (int d) { case 0: union switch (bool e) { case TRUE: int a; case FALSE: hyper b; } in; default: struct { int z[2]; } s; };
union us switch (bool d) { case TRUE: struct { int a; string b<4>; struct { int c; } *p; } s; case FALSE: void; };
typedef struct { int k; } arrst[2];
typedef struct { int k<>; } varst<LIM>;
typedef struct { int k; string n<>; } *optst;
typedef union switch (int d) { case 1: int a; default: void; } anonun;
typedef union switch (int d) { case 1: int a; default: string b<>; } arrun[2];
