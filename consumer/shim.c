/* A program using the ns-eel2 API as the build files tell; argument: expected number size. */
#include <ns-eel.h>
#include <stdio.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
void NSEEL_HOSTSTUB_EnterMutex() {}
void NSEEL_HOSTSTUB_LeaveMutex() {}
#ifdef __cplusplus
}
#endif
#define CHECK(c) if (!(c)) { printf("not true: %s (line %d)\n", #c, __LINE__); bad = 1; }
int main(int argc, char** argv)
{
    int want = atoi(argv[1]), bad = 0;
    char text[] = "y=x*3+1;megabuf(1)=x;megabuf(0)=5;z=megabuf(1);z=z+0.1";
    NSEEL_VMCTX c = NSEEL_VM_alloc();
    EEL_F *x = NSEEL_VM_regvar(c, "x"), *y = NSEEL_VM_regvar(c, "y"), *z = NSEEL_VM_regvar(c, "z");
    NSEEL_CODEHANDLE h = NSEEL_code_compile(c, text, 0);
    EEL_F t;
    (void) argc;
    CHECK(sizeof(EEL_F) == want);
    CHECK(h);
    *x = (EEL_F) 0.1;
    NSEEL_code_execute(h);
    CHECK(*y == *x * 3 + 1);
    t = *x;
    t += (EEL_F) 0.1;
    CHECK(*z == t);
    NSEEL_VM_resetvars(c);
    CHECK(*x == 0 && *y == 0 && *z == 0);
    NSEEL_code_free(h);
    NSEEL_VM_free(c);
    NSEEL_quit();
    return bad;
}
