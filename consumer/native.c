/* A program using the library as its build files tell; argument: expected number size. */
#include <projectm-eval.h>
#include <stdio.h>
#include <stdlib.h>
void projectm_eval_memory_host_lock_mutex() {}
void projectm_eval_memory_host_unlock_mutex() {}
#define CHECK(c) if (!(c)) { printf("not true: %s (line %d)\n", #c, __LINE__); bad = 1; }
int main(int argc, char** argv)
{
    int want = atoi(argv[1]), bad = 0, i;
    static PRJM_EVAL_F regs[100];
    projectm_eval_mem_buffer gm = projectm_eval_memory_buffer_create();
    struct projectm_eval_context* c = projectm_eval_context_create(gm, &regs);
    PRJM_EVAL_F *x = projectm_eval_context_register_variable(c, "x"), *y = projectm_eval_context_register_variable(c, "y");
    struct projectm_eval_code* h = projectm_eval_code_compile(c, "y=x*3+1;gmegabuf(0)=5;gmegabuf(1)=x;gmegabuf(65535)=7;gmegabuf(65536)=8;reg01=2;reg99=9;reg00=1;z=z+0.1;x/3");
    (void) argc;
    CHECK(sizeof(PRJM_EVAL_F) == want);
    *x = (PRJM_EVAL_F) 0.1;
    for (i = 0; i < 2; i++)
    {
        PRJM_EVAL_F r = projectm_eval_code_execute(h);
        CHECK(r == *x / 3);
    }
    CHECK(*y == *x * 3 + 1);
    CHECK(gm[0][0] == 5 && gm[0][1] == *x && gm[0][65535] == 7 && gm[1][0] == 8);
    CHECK(regs[0] == 1 && regs[1] == 2 && regs[99] == 9 && regs[2] == 0 && regs[98] == 0 && regs[50] == 0);
    {
        PRJM_EVAL_F* z = projectm_eval_context_register_variable(c, "z");
        PRJM_EVAL_F t = (PRJM_EVAL_F) 0.1;
        t += (PRJM_EVAL_F) 0.1;
        CHECK(*z == t);
    }
    projectm_eval_code_destroy(h);
    projectm_eval_context_destroy(c);
    projectm_eval_memory_buffer_destroy(gm);
    return bad;
}
