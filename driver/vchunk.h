/* force-included when compiling the code that splits numbers of 2^31 and more over several instructions:
   makes the biggest number one instruction can hold a run-time variable, so that splitting is exercised with small packages */
#ifndef DRPM_VERIF_CHUNK_H
#define DRPM_VERIF_CHUNK_H
#include <stdint.h>
extern int drpm_verif_chunk;
#undef INT32_MAX
#undef INT32_MIN
#define INT32_MAX drpm_verif_chunk
#define INT32_MIN ((uint32_t)drpm_verif_chunk + 1)
#endif
