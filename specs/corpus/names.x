/* run:  */
/* run: -unsigned-enum -const-type uint32 -t */
struct type { int map; int type; int len; int make; int append; int error; };
struct map { type t; type *u; type v<2>; };
typedef int Upper;
typedef int lower_case;
struct mixed_Case { Upper aB; lower_case Ab_c; };
const c1 = 1;
const nil = 2;
const xs = 2;
const xdr2 = 010;
typedef int useXs[xs];
typedef hyper useNil<nil>;
typedef opaque useOct[xdr2];
struct locals { int xs; int i; int v; int opted<xs>; bool ok; int p; hyper w[nil]; string args<xs>; opaque in[xs]; int out; int res; int err; int h; };
struct empty { };
typedef empty aliasempty;
struct hasempty { int a; empty e; int b; };
