/* run:  */
/* run: -unsigned-enum -const-type uint32 -t */
const LIM = 4;
const i = 3;
const v = 6;
enum sizes { small = 1, MEDIUM = 5, large = 9 };
typedef string s0<>;
typedef string s1<1>;
typedef string s4<LIM>;
typedef string s7<7>;
typedef string si<i>;
typedef string sv<v>;
typedef string sm<MEDIUM>;
typedef string ss<small>;
typedef string sz<0>;
typedef string sx<4294967295>;
typedef string sh<0x10>;
typedef opaque o0<>;
typedef opaque o1<1>;
typedef opaque o4<LIM>;
typedef opaque o7<7>;
typedef opaque oi<i>;
typedef opaque ov<v>;
typedef opaque ol<large>;
typedef opaque oz<0>;
typedef opaque ox<4294967295>;
typedef opaque f1[1];
typedef opaque f2[2];
typedef opaque f3[i];
typedef opaque f4[LIM];
typedef opaque f5[MEDIUM];
typedef opaque f6[v];
typedef opaque f8[8];
typedef int a1[1];
typedef int ai[i];
typedef hyper av[v];
typedef int as[small];
typedef int li<i>;
typedef int lv<v>;
typedef int lm<MEDIUM>;
struct all { string a<>; string b<LIM>; opaque c<>; opaque d<i>; opaque e[i]; opaque f[LIM]; string g<small>; int h; };
union pick switch (sizes s) {
case small: string a<>;
case MEDIUM: opaque b<LIM>;
case large: opaque c[v];
};
union spare switch (int s) {
case 1: opaque a<>;
default: string b<LIM>;
};
