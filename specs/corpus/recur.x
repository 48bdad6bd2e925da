/* run:  */
/* run: -unsigned-enum -const-type uint32 -t */
struct list { int v; list *next; };
typedef list *head;
struct tree { int v; tree *l; tree *r; };
struct bush { int v; bush kids<>; };
struct bushl { bushl kids<2>; string n<4>; };
struct ping { int a; pong *p; };
struct pong { hyper b; ping *q; };
union ulist switch (bool more) { case TRUE: node n; case FALSE: void; };
struct node { int v; ulist *rest; };
struct entry { string name<>; opaque handle<8>; entry *nextentry; };
struct dir { entry *entries; bool eof; };
typedef struct { int v; head h; } wrap;
struct uselist { head a; head b; int last; };
