/* force-included when compiling drpm for the harness: makes the block cache's limits run-time variables */
#ifndef DRPM_VERIF_LIMITS_H
#define DRPM_VERIF_LIMITS_H
#define _XOPEN_SOURCE 700
extern int drpm_verif_block_size, drpm_verif_core_blocks, drpm_verif_open_files;
#define DRPM_VERIF_BLOCK_SIZE drpm_verif_block_size
#define DRPM_VERIF_MAX_CORE_BLOCKS ((size_t)drpm_verif_core_blocks)
#define DRPM_VERIF_MAX_OPEN_FILES drpm_verif_open_files
#endif
