enum { ASK_C99 = 1, ASK_EXE };
enum { TELL_EXE = 1 };
