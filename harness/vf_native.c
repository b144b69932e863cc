/* Native side of vf.h, used only to replay a solver counterexample. */
#include <stdio.h>
#include <stdlib.h>
#include "vf.h"
static FILE *in;
unsigned long vf_u64(void)
{
    unsigned long v = 0;
    if (!in) {
        in = fopen(getenv("VF_INPUTS") ? getenv("VF_INPUTS") : "/dev/null", "r");
    }
    if (in && fscanf(in, "%lu", &v) != 1) {
        v = 0;
    }
    return v;
}
void vf_assume_(int c)
{
    if (!c) {
        fprintf(stderr, "VF-REPLAY: assumption not met, counterexample not reproduced\n");
        _Exit(77);
    }
}
void vf_assert_(int c, const char *msg, const char *file, int line)
{
    if (!c) {
        fprintf(stderr, "VF-REPLAY: assertion failed: %s (%s:%d)\n", msg, file, line);
        _Exit(99);
    }
}
int main(void)
{
    harness();
    fprintf(stderr, "VF-REPLAY: completed without a failure\n");
    _Exit(0);
}
