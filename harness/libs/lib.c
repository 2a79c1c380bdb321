/* A shared library for the C26 check: reports when it is initialised and ended. */
extern void vh_lib_event(int id, int delta);
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
__attribute__((constructor)) static void up(void) { vh_lib_event(ID, 1); }
__attribute__((destructor)) static void down(void) { vh_lib_event(ID, -1); }
int CAT(func, ID)(void) { return 100 + ID; }
int CAT(data, ID) = 200 + ID;
#ifdef BROKEN
extern int vh_nowhere_defined(int);
int use_it(int x) { return vh_nowhere_defined(x); }
#endif
#ifdef DEP
extern int CAT(func, DEP)(void);
int through(void) { return CAT(func, DEP)(); }
#endif
