const N = 3;
typedef unsigned int word;
typedef opaque blob<N>;
typedef string text<>;
enum color { RED = 0, GREEN = N };
struct pair { hyper a; unsigned hyper *b; color c[2]; bool d<>; text e; opaque f[N]; map type; };
union pick switch (color kind) { case RED: case GREEN: int n; default: void; };
