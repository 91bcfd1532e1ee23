#ifndef SIMCORE_H
#define SIMCORE_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* Hooks the instrumented extension calls. */
void *sim_opnew(size_t n);
void sim_opdelete(void *p);
#ifdef __cplusplus
}
#endif
#endif
