/* run:  */
const LIM = 2;
const WIDE = 5;
enum color { RED = 0, GREEN = 1, BLUE = 7 };
typedef string name<8>;
typedef opaque blob<5>;
typedef opaque fix[3];
struct pair { int a; unsigned hyper b; };
union choice switch (color c) { case RED: int r; case GREEN: case BLUE: name gb; };
typedef pair *optpair;
typedef int ints<LIM>;
typedef int al_int;
typedef int ar_int[2];
typedef int va_int<>;
typedef int vl_int<LIM>;
typedef int *op_int;
struct st_int { int x; int ar[LIM]; int va<>; int vl<3>; int *op; int last; };
union un_int switch (int d) { case 0: int x; case 1: int ar[2]; case 2: int va<LIM>; case 3: int vl<>; default: int *op; };
typedef unsigned int al_uint;
typedef unsigned int ar_uint[2];
typedef unsigned int va_uint<>;
typedef unsigned int vl_uint<LIM>;
typedef unsigned int *op_uint;
struct st_uint { unsigned int x; unsigned int ar[LIM]; unsigned int va<>; unsigned int vl<3>; unsigned int *op; int last; };
union un_uint switch (int d) { case 0: unsigned int x; case 1: unsigned int ar[2]; case 2: unsigned int va<LIM>; case 3: unsigned int vl<>; default: unsigned int *op; };
typedef hyper al_hyper;
typedef hyper ar_hyper[2];
typedef hyper va_hyper<>;
typedef hyper vl_hyper<LIM>;
typedef hyper *op_hyper;
struct st_hyper { hyper x; hyper ar[LIM]; hyper va<>; hyper vl<3>; hyper *op; int last; };
union un_hyper switch (int d) { case 0: hyper x; case 1: hyper ar[2]; case 2: hyper va<LIM>; case 3: hyper vl<>; default: hyper *op; };
typedef unsigned hyper al_uhyper;
typedef unsigned hyper ar_uhyper[2];
typedef unsigned hyper va_uhyper<>;
typedef unsigned hyper vl_uhyper<LIM>;
typedef unsigned hyper *op_uhyper;
struct st_uhyper { unsigned hyper x; unsigned hyper ar[LIM]; unsigned hyper va<>; unsigned hyper vl<3>; unsigned hyper *op; int last; };
union un_uhyper switch (int d) { case 0: unsigned hyper x; case 1: unsigned hyper ar[2]; case 2: unsigned hyper va<LIM>; case 3: unsigned hyper vl<>; default: unsigned hyper *op; };
typedef bool al_bool;
typedef bool ar_bool[2];
typedef bool va_bool<>;
typedef bool vl_bool<LIM>;
typedef bool *op_bool;
struct st_bool { bool x; bool ar[LIM]; bool va<>; bool vl<3>; bool *op; int last; };
union un_bool switch (int d) { case 0: bool x; case 1: bool ar[2]; case 2: bool va<LIM>; case 3: bool vl<>; default: bool *op; };
typedef color al_color;
typedef color ar_color[2];
typedef color va_color<>;
typedef color vl_color<LIM>;
typedef color *op_color;
struct st_color { color x; color ar[LIM]; color va<>; color vl<3>; color *op; int last; };
union un_color switch (int d) { case 0: color x; case 1: color ar[2]; case 2: color va<LIM>; case 3: color vl<>; default: color *op; };
typedef name al_name;
typedef name ar_name[2];
typedef name va_name<>;
typedef name vl_name<LIM>;
typedef name *op_name;
struct st_name { name x; name ar[LIM]; name va<>; name vl<3>; name *op; int last; };
union un_name switch (int d) { case 0: name x; case 1: name ar[2]; case 2: name va<LIM>; case 3: name vl<>; default: name *op; };
typedef blob al_blob;
typedef blob ar_blob[2];
typedef blob va_blob<>;
typedef blob vl_blob<LIM>;
typedef blob *op_blob;
struct st_blob { blob x; blob ar[LIM]; blob va<>; blob vl<3>; blob *op; int last; };
union un_blob switch (int d) { case 0: blob x; case 1: blob ar[2]; case 2: blob va<LIM>; case 3: blob vl<>; default: blob *op; };
typedef fix al_fix;
typedef fix ar_fix[2];
typedef fix va_fix<>;
typedef fix vl_fix<LIM>;
typedef fix *op_fix;
struct st_fix { fix x; fix ar[LIM]; fix va<>; fix vl<3>; fix *op; int last; };
union un_fix switch (int d) { case 0: fix x; case 1: fix ar[2]; case 2: fix va<LIM>; case 3: fix vl<>; default: fix *op; };
typedef pair al_pair;
typedef pair ar_pair[2];
typedef pair va_pair<>;
typedef pair vl_pair<LIM>;
typedef pair *op_pair;
struct st_pair { pair x; pair ar[LIM]; pair va<>; pair vl<3>; pair *op; int last; };
union un_pair switch (int d) { case 0: pair x; case 1: pair ar[2]; case 2: pair va<LIM>; case 3: pair vl<>; default: pair *op; };
typedef choice al_choice;
typedef choice ar_choice[2];
typedef choice va_choice<>;
typedef choice vl_choice<LIM>;
typedef choice *op_choice;
struct st_choice { choice x; choice ar[LIM]; choice va<>; choice vl<3>; choice *op; int last; };
union un_choice switch (int d) { case 0: choice x; case 1: choice ar[2]; case 2: choice va<LIM>; case 3: choice vl<>; default: choice *op; };
typedef optpair al_optpair;
typedef optpair ar_optpair[2];
typedef optpair va_optpair<>;
typedef optpair vl_optpair<LIM>;
typedef optpair *op_optpair;
struct st_optpair { optpair x; optpair ar[LIM]; optpair va<>; optpair vl<3>; optpair *op; int last; };
union un_optpair switch (int d) { case 0: optpair x; case 1: optpair ar[2]; case 2: optpair va<LIM>; case 3: optpair vl<>; default: optpair *op; };
typedef ints al_ints;
typedef ints ar_ints[2];
typedef ints va_ints<>;
typedef ints vl_ints<LIM>;
typedef ints *op_ints;
struct st_ints { ints x; ints ar[LIM]; ints va<>; ints vl<3>; ints *op; int last; };
union un_ints switch (int d) { case 0: ints x; case 1: ints ar[2]; case 2: ints va<LIM>; case 3: ints vl<>; default: ints *op; };
