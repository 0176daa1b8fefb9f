// Native replay driver: feeds the solver's input values to the harness.
// Exit codes: 0 completed, 3 an assumption is false under these inputs, 4 inputs exhausted, 77 assertion violated.
#include <stdio.h>
#include <stdlib.h>
#include "vp.h"
static FILE* in;
static unsigned reached;
uint64_t vp_next_input(void)
{
    unsigned long long v;
    if (!in || fscanf(in, "%llu", &v) != 1) {
        printf("REPLAY: inputs exhausted\n"); fflush(stdout);
        _Exit(4);
    }
    return v;
}
void vp_assume_failed(const char* e) { printf("REPLAY: assumption does not hold: %s\n", e); fflush(stdout); _Exit(3); }
void vp_assert_failed(const char* t) { printf("REPLAY: VIOLATED: %s\n", t); fflush(stdout); _Exit(77); }
void vp_done(void) { printf("REPLAY: completed\n"); fflush(stdout); _Exit(0); }
void vp_reached(const char* t) { printf("REPLAY: REACHED: %s\n", t); fflush(stdout); reached++; }
int main(int argc, char* argv[])
{
    in = argc > 1 ? fopen(argv[1], "r") : 0;
    harness();
    printf("REPLAY: completed\n");
    return 0;
}
